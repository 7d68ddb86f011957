------------------------------ MODULE MC_Sign -------------------------------
(* Every short history of tampering with two signed files: nothing is ever   *)
(* accepted that was not signed with the matching key in exactly this form,  *)
(* and one good signature is enough.  The histories are printed for replay.  *)
EXTENDS Sign, IOUtils

D == atoi(IOEnv.SIGN_DEPTH)
VARIABLES ini, hist, signed
vars == <<sf, ini, hist, signed>>

Inits == << <<"A", "none">>, <<"none", "A">>, <<"A", "B">>, <<"A", "A">>, <<"none", "none">>, <<"R", "A">> >>
Keys == {"A", "B", "R"}

F(id, k) == LET f == [base |-> id, flips |-> {}, cut |-> 0, tail |-> <<>>, slot |-> <<NoSig, NoSig>>]
            IN [f EXCEPT !.slot = <<Made(k[1], Body(f)), Made(k[2], Body(f))>>]
Init == \E n \in 1..Len(Inits) :
    /\ ini = n
    /\ sf = (1 :> F(1, Inits[n])) @@ (2 :> F(2, <<"A", "B">>))
    /\ signed = { <<Inits[n][1], Body(F(1, Inits[n]))>>, <<Inits[n][2], Body(F(1, Inits[n]))>>,
                  <<"A", Body(F(2, Inits[n]))>>, <<"B", Body(F(2, Inits[n]))>> }
    /\ hist = <<>>

Op(n) ==
  CASE n = 1  -> SFlip(1, 20, 1)
    [] n = 2  -> SFlip(1, 9000, 128)
    [] n = 3  -> SCut(1, 1)
    [] n = 4  -> SAppend(1, <<7>>)
    [] n = 5  -> SSlotFlip(1, 1, 10, 1, TRUE)
    [] n = 6  -> SSlotFlip(1, 2, 12, 64, TRUE)
    [] n = 7  -> SSlotFlip(1, 1, 1000, 1, FALSE)
    [] n = 8  -> SSlotCopy(1, 1, 1, 2)
    [] n = 9  -> SSlotCopy(1, 2, 1, 1)
    [] n = 10 -> SSlotCopy(2, 1, 1, 1)
    [] n = 11 -> SSlotCopy(2, 2, 1, 2)
    [] n = 12 -> SSlotClear(1, 1)
    [] n = 13 -> SSlotClear(1, 2)
    [] n = 14 -> SSlotLen(1, 1, "other")
    [] n = 15 -> SSlotLen(1, 2, "other")
    [] n = 16 -> SSlotJunk(1, 1)
    [] n = 17 -> SSlotJunk(1, 2)
    [] n = 18 -> SSlotLen(1, 2, "huge")
Ops == 1..18

Real(s) == s.by \notin {"none", "junk"} /\ s.len = "own"
Next == /\ Len(hist) < D
        /\ \E n \in Ops :
             /\ n = 14 => Real(sf[1].slot[1])
             /\ n \in {15, 18} => Real(sf[1].slot[2])
             /\ Op(n)
             /\ hist' = Append(hist, n)
        /\ UNCHANGED <<ini, signed>>
Spec == Init /\ [][Next]_vars

NoForgery == \A i \in {1, 2}, k \in Keys : Authentic(sf[i], k) => <<k, Body(sf[i])>> \in signed
OneIsEnough == \A i \in {1, 2}, k \in Keys : \A s \in {1, 2} :
                  SlotValid(sf[i].slot[s], k, Body(sf[i])) => Authentic(sf[i], k)
TamperedFails == \A i \in {1, 2}, k \in Keys : ~Intact(sf[i]) => ~Authentic(sf[i], k)
Emit == Len(hist) = D => PrintT(<<"HIST", ini, hist>>)
=============================================================================
