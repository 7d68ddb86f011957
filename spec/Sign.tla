-------------------------------- MODULE Sign --------------------------------
(* Signatures of database files, symbolically.  A file has a content (which  *)
(* write it came from and everything that was done to it since) and two      *)
(* signature slots.  A slot holds the key that made the signature and the    *)
(* content it was made over; whatever was done to the slot since is kept in  *)
(* flips and len.                                                            *)
EXTENDS Integers, Sequences, FiniteSets, TLC

VARIABLE sf          \* file -> [base, flips, cut, tail, slot]

Upd1(f, k, v) == (k :> v) @@ f
EmptyF == [x \in {} |-> 0]
SymDiff(S, x) == IF x \in S THEN S \ {x} ELSE S \union {x}

Body(f) == [base |-> f.base, flips |-> f.flips, cut |-> f.cut, tail |-> f.tail]
NoSig == [by |-> "none", over |-> 0, flips |-> {}, len |-> "own"]
Made(k, b) == IF k = "none" THEN NoSig ELSE [by |-> k, over |-> b, flips |-> {}, len |-> "own"]

SInit == sf = EmptyF

(* the writer signs what it writes with both of its keys *)
SWrite(i, id, k1, k2) ==
    LET f == [base |-> id, flips |-> {}, cut |-> 0, tail |-> <<>>, slot |-> <<NoSig, NoSig>>]
    IN sf' = Upd1(sf, i, [f EXCEPT !.slot = <<Made(k1, Body(f)), Made(k2, Body(f))>>])
(* keys which do not sign what is fed to them piece by piece: nothing that   *)
(* was to be signed with one of them passes for written                      *)
Unable == {"E", "X"}
SWriteOK(k1, k2, ok) == ok <=> {k1, k2} \intersect Unable = {}
SWriteAny(i, id, k1, k2) ==
    IF {k1, k2} \intersect Unable = {} THEN SWrite(i, id, k1, k2)
    ELSE sf' = Upd1(sf, i, [base |-> id, flips |-> {}, cut |-> 1, tail |-> <<>>, slot |-> <<NoSig, NoSig>>])
SFlip(i, pos, m) == sf' = [sf EXCEPT ![i].flips = SymDiff(@, <<pos, m>>)]
SCut(i, n) == LET f == sf[i] t == Len(f.tail) IN
    sf' = [sf EXCEPT ![i] = IF n <= t THEN [f EXCEPT !.tail = SubSeq(@, 1, t - n)]
                            ELSE [f EXCEPT !.tail = <<>>, !.cut = @ + n - t]]
SAppend(i, bytes) == sf' = [sf EXCEPT ![i].tail = @ \o bytes]
SCopy(i, j) == sf' = Upd1(sf, j, sf[i])
(* inside: the byte is part of the signature and not of the space behind it *)
SSlotFlip(i, s, pos, m, inside) ==
    sf' = IF inside THEN [sf EXCEPT ![i].slot[s].flips = SymDiff(@, <<pos, m>>)] ELSE sf
SSlotCopy(i, s, j, t) == sf' = [sf EXCEPT ![j].slot[t] = sf[i].slot[s]]
SSlotClear(i, s) == sf' = [sf EXCEPT ![i].slot[s] = NoSig]
SSlotJunk(i, s) == sf' = [sf EXCEPT ![i].slot[s] = [NoSig EXCEPT !.by = "junk"]]
SSlotLen(i, s, l) == sf' = [sf EXCEPT ![i].slot[s].len = l]

(* ------------------------------------------------------------- verify *)
SlotValid(s, k, b) == s.by = k /\ s.over = b /\ s.flips = {} /\ s.len = "own"
Authentic(f, k) == \E s \in {1, 2} : SlotValid(f.slot[s], k, Body(f))

Intact(f)  == f.flips = {} /\ f.cut = 0 /\ f.tail = <<>>
Refused(f) == \E s \in {1, 2} : f.slot[s].len = "huge"

(* opening an intact file works unless a signature is too long; verification *)
(* of an opened file accepts exactly the authentic ones                      *)
CheckOK(f, k, opened, accepted) ==
    /\ Intact(f) /\ ~Refused(f) => opened
    /\ Refused(f) => ~opened
    /\ accepted => opened
    /\ accepted <=> (Authentic(f, k) /\ ~Refused(f))
=============================================================================
