----------------------------- MODULE TraceSign ------------------------------
(* Validation of recorded histories of signed files against Sign.            *)
EXTENDS Sign, Json, IOUtils

Traces  == JsonDeserialize(IOEnv.TRACES)
VARIABLES tid, l, ok
vars == <<sf, tid, l, ok>>
Ev == Traces[tid].ev

TInit == SInit /\ tid \in 1..Len(Traces) /\ l = 1 /\ ok = TRUE

Judge(bad) == /\ ok' = (bad = {})
              /\ (bad # {} => PrintT(<<"REJECT", tid, l, bad>>))
Fine == Judge({})
Bad(c) == IF c THEN {} ELSE {0}

(* what a scan over positions may accept: nothing outside of the slots *)
InSlot(p) == p \in 68..71 \/ p \in 72..4167
Dispatch(e) ==
  CASE e.e = "write"   -> SWriteAny(e.i, e.id, e.k1, e.k2) /\ Judge(Bad(SWriteOK(e.k1, e.k2, e.r = "ok")))
    [] e.e = "flip"    -> SFlip(e.i, e.pos, e.m) /\ Fine
    [] e.e = "cut"     -> SCut(e.i, e.n) /\ Fine
    [] e.e = "append"  -> SAppend(e.i, e.bytes) /\ Fine
    [] e.e = "copy"    -> SCopy(e.i, e.j) /\ Fine
    [] e.e = "sflip"   -> SSlotFlip(e.i, e.s, e.pos, e.m, e.inside) /\ Fine
    [] e.e = "scopy"   -> SSlotCopy(e.i, e.s, e.j, e.t) /\ Fine
    [] e.e = "sclear"  -> SSlotClear(e.i, e.s) /\ Fine
    [] e.e = "sjunk"   -> SSlotJunk(e.i, e.s) /\ Fine
    [] e.e = "slen"    -> SSlotLen(e.i, e.s, e.len) /\ Fine
    [] e.e = "check"   -> Judge(Bad(CheckOK(sf[e.i], e.key, e.opened, e.accepted))) /\ UNCHANGED sf
    [] e.e = "again"   -> \* a handle opened before gives the same answer, again and again
                          Judge(Bad(e.accepted <=> Authentic(sf[e.i], e.key))) /\ UNCHANGED sf
    [] e.e = "vfail"   -> \* what cannot be read to its end is not authentic
                          Judge(Bad(e.accepted <=> (~e.failed /\ Authentic(sf[e.i], e.key)))) /\ UNCHANGED sf
    [] e.e = "nokey"   -> Judge(Bad(~e.accepted)) /\ UNCHANGED sf
    [] e.e = "flipscan" -> \* each of these single bytes was changed and restored
                          Judge({ k \in 1..Len(e.accepted) :
                                    LET p == e.accepted[k] IN
                                    ~(InSlot(p) /\ Authentic(sf[e.i], e.key)) }
                                \union (IF e.n > 0 THEN {} ELSE {0}))
                          /\ UNCHANGED sf
    [] e.e = "cutscan" -> \* only the full length is accepted
                          Judge(Bad(\A k \in 1..Len(e.accepted) : e.accepted[k] = e.full)) /\ UNCHANGED sf
    [] OTHER           -> Judge({0}) /\ UNCHANGED sf
TNext == ok /\ l <= Len(Ev) /\ l' = l + 1 /\ tid' = tid /\ Dispatch(Ev[l])
TSpec == TInit /\ [][TNext]_vars
=============================================================================
