------------------------------ MODULE MC_Write ------------------------------
(* Writing a database through a buffered stream onto a medium that may fail  *)
(* at any point, for a while or for good.  The writer puts out the magic,    *)
(* the sections, optionally reads everything again to sign it (rewinding the *)
(* stream forgets about errors), then the header, and flushes.  Success must *)
(* mean that everything is on the medium.                                    *)
(* Careful: look for errors before the stream is rewound and after the final *)
(* flush.  With Careful = FALSE the model is the library as it was found,    *)
(* and TLC has to find the violation.                                        *)
EXTENDS Naturals, FiniteSets, Sequences

CONSTANTS NUnits,      \* units of the sections (1..NUnits), 0 is the header, 100 the magic
          BufLen,      \* units that fit into the stream's buffer
          Careful

VARIABLES pc,          \* where the writer is
          next,        \* next unit of the sections
          buf,         \* units in the buffer
          med,         \* units on the medium
          err,         \* the stream's error indicator
          faults,      \* failures so far
          perm,        \* the medium failed for good
          sign,        \* signatures still to make
          res          \* what the writer says
vars == <<pc, next, buf, med, err, faults, perm, sign, res>>

Units == (0..NUnits) \union {100}

Init == /\ pc = "magic" /\ next = 1 /\ buf = {} /\ med = {} /\ err = FALSE
        /\ faults = 0 /\ perm = FALSE /\ sign \in 0..2 /\ res = "none"

(* Flushing the units B: ok, or a part reaches the medium and the rest is    *)
(* kept or lost.                                                             *)
FlushOk(B)   == ~perm /\ med' = med \union B /\ buf' = {} /\ UNCHANGED <<err, faults, perm>>
FlushFail(B) == /\ B # {}
                /\ (perm \/ faults < 2)
                /\ \E part \in SUBSET B :
                     /\ part # B
                     /\ med' = med \union (IF perm THEN {} ELSE part)
                     /\ buf' \in { {}, B \ part }
                /\ err' = TRUE
                /\ faults' = IF perm THEN faults ELSE faults + 1
                /\ perm' \in IF perm THEN {TRUE} ELSE BOOLEAN

(* put one unit; whether that worked *)
Put(u, ok) ==
    IF Cardinality(buf) < BufLen
    THEN ok /\ buf' = buf \union {u} /\ UNCHANGED <<med, err, faults, perm>>
    ELSE \/ ok /\ FlushOk(buf \union {u})
         \/ ~ok /\ FlushFail(buf \union {u})
Sync(ok) == \/ ok /\ (IF buf = {} THEN UNCHANGED <<med, buf, err, faults, perm>> ELSE FlushOk(buf))
            \/ ~ok /\ FlushFail(buf)

Return(r) == res' = r /\ pc' = "done"
Goto(p)   == pc' = p /\ UNCHANGED res

Magic == pc = "magic" /\ Goto("skip") /\ (Put(100, TRUE) \/ Put(100, FALSE)) /\ UNCHANGED <<next, sign>>
(* seeking writes the buffer out and reports a failure *)
Skip  == /\ pc = "skip" /\ UNCHANGED <<next, sign>>
         /\ \/ Sync(TRUE) /\ Goto("sections")
            \/ Sync(FALSE) /\ Return("err")
Sect  == /\ pc = "sections" /\ UNCHANGED sign
         /\ IF next > NUnits THEN UNCHANGED <<buf, med, err, faults, perm, next>> /\ Goto("checked")
            ELSE next' = next + 1 /\ (Put(next, TRUE) \/ Put(next, FALSE)) /\ Goto("sections")
Check1 == /\ pc = "checked" /\ UNCHANGED <<next, sign>>
          /\ IF ~Careful THEN UNCHANGED <<buf, med, err, faults, perm>> /\ Goto("sign")
             ELSE IF err THEN UNCHANGED <<buf, med, err, faults, perm>> /\ Return("err")
             ELSE \/ Sync(TRUE) /\ Goto("sign")
                  \/ Sync(FALSE) /\ Return("err")
(* rewind: the result of writing the buffer out is not seen, and the error is forgotten *)
Sign  == /\ pc = "sign" /\ UNCHANGED next
         /\ IF sign = 0 THEN UNCHANGED <<buf, med, err, faults, perm, sign>> /\ Goto("header")
            ELSE /\ sign' = sign - 1 /\ Goto("sign")
                 /\ \E ok \in BOOLEAN : \E e \in BOOLEAN :
                      \/ ok /\ buf = {} /\ err' = FALSE /\ UNCHANGED <<med, buf, faults, perm>>
                      \/ ok /\ buf # {} /\ ~perm /\ med' = med \union buf /\ buf' = {} /\ err' = FALSE /\ UNCHANGED <<faults, perm>>
                      \/ /\ ~ok /\ buf # {} /\ (perm \/ faults < 2) /\ err' = FALSE
                         /\ \E part \in SUBSET buf : part # buf /\ med' = med \union (IF perm THEN {} ELSE part)
                                                      /\ buf' \in { {}, buf \ part }
                         /\ faults' = IF perm THEN faults ELSE faults + 1
                         /\ perm' = (perm \/ e)
Header == /\ pc = "header" /\ UNCHANGED <<next, sign>>
          /\ \/ Sync(TRUE) /\ Goto("put")
             \/ Sync(FALSE) /\ Return("err")
PutHdr == /\ pc = "put" /\ UNCHANGED <<next, sign>>
          /\ \/ Put(0, TRUE) /\ Goto("end")
             \/ Put(0, FALSE) /\ Return(IF Careful THEN "err" ELSE "ok")
End    == /\ pc = "end" /\ UNCHANGED <<next, sign>>
          /\ \/ Sync(TRUE) /\ Goto("flush")
             \/ Sync(FALSE) /\ Return("err")
Flush  == /\ pc = "flush" /\ UNCHANGED <<next, sign>>
          /\ \/ Sync(TRUE) /\ Return(IF Careful /\ err THEN "err" ELSE "ok")
             \/ Sync(FALSE) /\ Return(IF Careful THEN "err" ELSE "ok")

Next == Magic \/ Skip \/ Sect \/ Check1 \/ Sign \/ Header \/ PutHdr \/ End \/ Flush
Spec == Init /\ [][Next]_vars

Complete == res = "ok" => med = Units
Honest   == (res = "err") => faults > 0
=============================================================================
