------------------------------ MODULE MC_Nets -------------------------------
(* The short forms that judge recorded executions mean what their            *)
(* definitions over every single address mean: checked for every pair of     *)
(* small sets of networks of a small space with the second family inside.    *)
EXTENDS Nets, SequencesExt, FiniteSetsExt
CONSTANTS KS, KT
SmallMap == <<1>>
VARIABLES S, T, flt, step
vars == <<S, T, flt, step>>

Attrs == { [cc |-> "A", asn |-> <<0, 1>>, fl |-> 0], [cc |-> "", asn |-> <<0, 2>>, fl |-> 1] }
Net(b, t) == [a |-> b.a, p |-> b.p, cc |-> t.cc, asn |-> t.asn, fl |-> t.fl]
Sets(k) == UNION { { { Net(b, f[b]) : b \in B } : f \in [B -> Attrs] } : B \in UNION { kSubset(i, AllBlocks) : i \in 0..k } }
SortQ(A) == SetToSortSeq(A, Before)
Flt(fam, con, cs, fl) == [fam |-> fam, con |-> con, cs |-> cs, aon |-> FALSE, as |-> {}, fl |-> fl]
Filters == { Flt(f, FALSE, {}, {}) : f \in {0, 4, 6} } \union { Flt(f, TRUE, {"A"}, {}) : f \in {0, 4, 6} } \union { Flt(0, FALSE, {}, {0}) }

Init == S \in Sets(KS) /\ T = {} /\ flt = Flt(0, FALSE, {}, {}) /\ step = 0
Next == step = 0 /\ step' = 1 /\ S' = S /\ T' \in Sets(KT) /\ flt' \in Filters
Spec == Init /\ [][Next]_vars

(* ------------------------------------------- over every single address *)
SameEverywhere == \A y \in AllAddr : AttrAt(S, y) = AttrAt(T, y)
CriticalSuffices == AttrEq(S, T) <=> SameEverywhere

FlatEverywhere(q) ==
    /\ Disjoint(q)
    /\ \A y \in AllAddr :
         LET C == Covering(Ran(q), y) IN
         /\ FlatCare(S, flt, y) => (C # {} <=> FlatWant(S, flt, y))
         /\ \A f \in C : Attr(f) = AttrAt(S, y)
FlatSame == LET q == SortQ(T) IN /\ FlatDef(q, S, flt) <=> FlatEverywhere(q)
                                 /\ FlatOK(q, S, flt) <=> FlatEverywhere(q)
CoverSame == LET q == SortQ(T) IN CoverOK(q, S, flt) <=>
    (/\ Disjoint(q)
     /\ \A y \in AllAddr : FlatCare(S, flt, y) => (Covering(T, y) # {} <=> FlatWant(S, flt, y)))

(* blocks of one family that are disjoint *)
BogonSame == \A fam \in {4, 6} :
    LET B == { n \in T : FamOf(n) = fam }
        q == SortQ(B)
        A == Assigned(S, fam)
    IN BogonOK(q, A, fam) <=>
       (/\ Disjoint(q)
        /\ \A y \in { z \in AllAddr : FamilyOf(z) = fam } : (Covering(B, y) # {}) <=> (A # {} /\ Covering(A, y) = {}))
BogonDefSame == \A fam \in {4, 6} :
    LET B == { n \in T : FamOf(n) = fam }  A == Assigned(S, fam) IN
    BogonDef(B, A, fam) <=>
       \A y \in { z \in AllAddr : FamilyOf(z) = fam } : Cardinality(Covering(B, y)) = (IF A # {} /\ Covering(A, y) = {} THEN 1 ELSE 0)

ExcludeSame == \A n \in { m \in S : TRUE } :
    LET q == SortQ(T)  X == S \ {n} IN
    ExcludeOK(q, n, X) <=>
      (/\ Disjoint(q) /\ \A f \in T : IsSub(f, n)
       /\ \A y \in AllAddr : InNet(n, y) => ((Covering(T, y) # {}) <=> (Covering(X, y) = {})))

(* what a lookup finds is the most specific network around the address *)
LookupFinds == \A y \in AllAddr : LET n == Lpm(S, y) IN
    IF n = None THEN \A m \in S : ~InNet(m, y)
    ELSE InNet(n, y) /\ \A m \in S : InNet(m, y) => IsSub(n, m)
=============================================================================
