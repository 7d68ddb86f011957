------------------------------ MODULE MC_Lots -------------------------------
(* The judgements of Lots are those of Nets, for every pair of small sets of *)
(* networks of a small space.                                                *)
EXTENDS MC_Nets, Lots
L(A) == Of(SortQ(A))
LpmSame == LET q == L(S) IN \A y \in AllAddr : LpmAt(q, y) = Lpm(S, y) /\ (LCovered(q, y) <=> Covering(S, y) # {})
EqSame == LAttrEq(L(S), L(T)) <=> AttrEq(S, T)
SearchSame == LET q == SortQ(T) IN LSearchOK(q, L(S), flt) <=> SearchOK(q, S, flt)
FlatFast == LET q == SortQ(T) IN LFlatOK(q, L(S), flt) <=> FlatOK(q, S, flt)
BogonFast == \A fam \in {4, 6} :
    LET q == SortQ({ n \in T : FamOf(n) = fam }) IN LBogonOK(q, LAssigned(L(S), fam), fam) <=> BogonOK(q, Assigned(S, fam), fam)
ExcludeFast == \A n \in S : LET q == SortQ(T) X == S \ {n} IN LExcludeOK(q, n, L(X)) <=> ExcludeOK(q, n, X)
=============================================================================
