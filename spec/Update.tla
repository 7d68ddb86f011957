------------------------------ MODULE Update --------------------------------
(* The update of the installed database: which mirrors are asked, what is     *)
(* accepted, and when the installed file is replaced.                         *)
(*                                                                            *)
(* A case is what an update starts with:                                      *)
(*   inst    the installed file, NoFile when there is none                    *)
(*   ann     the announced version (a time), 0 when nothing is known          *)
(*   recent  the installed file is within the interval of a periodic update   *)
(*   mirrors what each mirror does: [does, file]                              *)
(* A file is [id, auth, at]: what it is, whether it carries a signature of    *)
(* the configured key over all of it, and when it was made.                   *)
EXTENDS Integers, Sequences, FiniteSets, TLC

NoFile == [id |-> "none", auth |-> FALSE, at |-> 0]

Acceptable(f, ann) == f.auth /\ (ann = 0 \/ f.at >= ann)
(* a mirror that delivers all of an acceptable file *)
GoodMirror(c, m) == c.mirrors[m].does = "serve" /\ Acceptable(c.mirrors[m].file, c.ann)
Mirrors(c) == 1..Len(c.mirrors)
Goods(c) == { m \in Mirrors(c) : GoodMirror(c, m) }

HasInst(c) == c.inst.id # "none"
Current(c) == HasInst(c) /\ c.ann # 0 /\ c.inst.at >= c.ann
Skips(c)   == (HasInst(c) /\ c.recent) \/ Current(c)

(* ------------------------------------------------------------ the contract *)
(* req: how often each mirror was asked; res: "ok" or "failed"; now: the file *)
(* at the installed path (its id); left: other files in the directory         *)
EndOK(c, req, res, now, left) ==
    /\ left = 0
    /\ IF Skips(c) THEN now = c.inst.id /\ \A m \in Mirrors(c) : req[m] = 0
       ELSE IF Goods(c) # {}
            THEN res = "ok" /\ \E m \in Goods(c) : req[m] > 0 /\ now = c.mirrors[m].file.id
            ELSE res = "failed" /\ now = c.inst.id /\ \A m \in Mirrors(c) : req[m] > 0

(* killed at any point: the old file, or one that may be installed *)
KilledOK(c, req, now) ==
    \/ now = c.inst.id
    \/ ~Skips(c) /\ \E m \in Goods(c) : req[m] > 0 /\ now = c.mirrors[m].file.id

(* a fault of the system on the way: as if killed, but it has to be said, and *)
(* nothing is left                                                            *)
FaultOK(c, req, res, now, left) ==
    /\ left = 0
    /\ KilledOK(c, req, now)
    /\ res = "ok" => (Skips(c) \/ \E m \in Goods(c) : req[m] > 0 /\ now = c.mirrors[m].file.id)

(* the downloader alone: got is the id of the delivered file *)
DownloadOK(c, req, res, got, readable, left) ==
    /\ left = 0
    /\ IF Goods(c) # {}
       THEN res = "ok" /\ readable /\ \E m \in Goods(c) : req[m] > 0 /\ got = c.mirrors[m].file.id
       ELSE res = "notfound" /\ \A m \in Mirrors(c) : req[m] > 0

(* ------------------------------------------------------------- the machine *)
(* step by step, so that it can be killed in between                          *)
CONSTANT Parts        \* a complete file is written in this many parts
VARIABLES case, pc, here, tmp, tried, cur, req, res
uvars == <<case, pc, here, tmp, tried, cur, req, res>>

(* a file on disk: which file it is part of, and how much of it is there *)
Disk(f, n) == [file |-> f, n |-> n]
Absent == Disk(NoFile, 0)
Whole(d) == d.n = Parts
(* how many parts a mirror delivers, and whether the transfer then is fine *)
Sends(b) == CASE b.does = "serve" -> Parts
              [] b.does = "cut"   -> Parts - 1
              [] b.does = "reset" -> 1
              [] OTHER            -> 0
Clean(b) == b.does \in {"serve", "cut", "empty"}

UInit(c) == /\ case = c /\ pc = "start" /\ tried = {} /\ cur = 0 /\ res = "none"
            /\ here = IF HasInst(c) THEN Disk(c.inst, Parts) ELSE Absent
            /\ tmp = Absent /\ req = [m \in Mirrors(c) |-> 0]

Goto(p) == pc' = p
Start == /\ pc = "start"
         /\ IF Skips(case) THEN Goto("done") /\ res' = "ok" ELSE Goto("mktemp") /\ res' = res
         /\ UNCHANGED <<case, here, tmp, tried, cur, req>>
Mktemp == /\ pc = "mktemp" /\ Goto("pick") /\ tmp' = Disk([NoFile EXCEPT !.id = "new"], 0)
          /\ UNCHANGED <<case, here, tried, cur, req, res>>
Pick == /\ pc = "pick"
        /\ \E m \in Mirrors(case) \ tried :
             /\ cur' = m /\ tried' = tried \union {m} /\ req' = [req EXCEPT ![m] = @ + 1]
             /\ tmp' = Disk(case.mirrors[m].file, 0)
        /\ Goto("get") /\ UNCHANGED <<case, here, res>>
Get == /\ pc = "get" /\ tmp.n < Sends(case.mirrors[cur])
       /\ tmp' = [tmp EXCEPT !.n = @ + 1]
       /\ UNCHANGED <<case, pc, here, tried, cur, req, res>>
GotAll == /\ pc = "get" /\ tmp.n = Sends(case.mirrors[cur])
          /\ Goto(IF Clean(case.mirrors[cur]) THEN "verify" ELSE "pick")
          /\ UNCHANGED <<case, here, tmp, tried, cur, req, res>>
Verify == /\ pc = "verify"
          /\ Goto(IF Whole(tmp) /\ Acceptable(tmp.file, case.ann) THEN "chmod" ELSE "pick")
          /\ UNCHANGED <<case, here, tmp, tried, cur, req, res>>
Chmod == /\ pc = "chmod" /\ Goto("rename") /\ UNCHANGED <<case, here, tmp, tried, cur, req, res>>
Rename == /\ pc = "rename" /\ here' = tmp /\ tmp' = Absent /\ Goto("done") /\ res' = "ok"
          /\ UNCHANGED <<case, tried, cur, req>>
GiveUp == /\ pc = "pick" /\ tried = Mirrors(case) /\ tmp' = Absent /\ Goto("done") /\ res' = "failed"
          /\ UNCHANGED <<case, here, tried, cur, req>>
Kill == /\ pc \notin {"done", "killed"} /\ Goto("killed") /\ UNCHANGED <<case, here, tmp, tried, cur, req, res>>
(* the system refuses something: the temporary file is removed and failure reported *)
Fault == /\ pc \in {"mktemp", "get", "verify", "chmod", "rename"} /\ Goto("faulted") /\ tmp' = Absent /\ res' = "failed"
         /\ UNCHANGED <<case, here, tried, cur, req>>
UNext == Start \/ Mktemp \/ Pick \/ Get \/ GotAll \/ Verify \/ Chmod \/ Rename \/ GiveUp \/ Kill \/ Fault

Left == IF tmp = Absent THEN 0 ELSE 1
NowId == here.file.id

(* at every moment a complete file is installed, the old or an acceptable one *)
Atomic == IF here = Absent THEN ~HasInst(case)
          ELSE Whole(here) /\ (here.file = case.inst \/ Acceptable(here.file, case.ann))
Contract == /\ pc = "done" => EndOK(case, req, res, NowId, Left)
            /\ pc # "done" => KilledOK(case, req, NowId)
            /\ pc = "faulted" => FaultOK(case, req, res, NowId, Left)
NothingAsked == Skips(case) => \A m \in Mirrors(case) : req[m] = 0
=============================================================================
