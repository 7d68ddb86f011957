-------------------------------- MODULE Lots --------------------------------
(* The judgements of Nets for many networks: given as a sequence in the      *)
(* order of networks (S) together with, for each, the position of the next   *)
(* larger one around it (0: none), every question is a binary search.        *)
(* MC_Lots: these are the judgements of Nets.                                *)
EXTENDS Nets, SequencesExt

(* the number of elements of q that come before, or are, what After accepts: *)
(* the first lo of them do, none after hi does                               *)
RECURSIVE UpTo(_, _, _, _)
UpTo(q, x, lo, hi) == IF lo >= hi THEN lo
                      ELSE LET m == (lo + hi + 1) \div 2 IN
                           IF Leq(q[m].a, x) THEN UpTo(q, x, m, hi) ELSE UpTo(q, x, lo, m - 1)
(* the last of them that starts at x or before *)
LastBy(q, x) == UpTo(q, x, 0, Len(q))
RECURSIVE Around(_, _, _, _)
Around(q, ups, k, x) == IF k = 0 \/ InNet(q[k], x) THEN k ELSE Around(q, ups, ups[k], x)
RECURSIVE Enclosing(_, _, _, _)
Enclosing(q, ups, k, n) == IF k = 0 \/ IsSub(n, q[k]) THEN k ELSE Enclosing(q, ups, ups[k], n)
Ups(q) == FoldLeft(LAMBDA ups, n : Append(ups, Enclosing(q, ups, Len(ups), n)), <<>>, q)
Of(q) == [q |-> q, ups |-> Ups(q)]
LpmAt(S, x) == LET k == Around(S.q, S.ups, LastBy(S.q, x), x) IN IF k = 0 THEN None ELSE S.q[k]
LAttrAt(S, x) == LET n == LpmAt(S, x) IN IF n = None THEN NoAttr ELSE Attr(n)
LCovered(S, x) == Around(S.q, S.ups, LastBy(S.q, x), x) # 0

LCritical(q) == ( { q[i].a : i \in 1..Len(q) } \union { Succ(LastOf(q[i])) : i \in 1..Len(q) } \union { Zero } ) \ {<<>>}
LAttrEq(S, T) == \A x \in LCritical(S.q) \union LCritical(T.q) : LAttrAt(S, x) = LAttrAt(T, x)
LSearchOK(r, S, flt) == r = SelectSeq(S.q, LAMBDA n : MatchNet(flt, n))

(* in a sequence of disjoint networks *)
Hit(q, x) == LET k == LastBy(q, x) IN IF k > 0 /\ InNet(q[k], x) THEN k ELSE 0
LWant(n, flt, x) == IF n = None THEN FALSE
                    ELSE MatchAttr(flt, n.cc, n.asn, Flags(n.fl)) /\ (flt.fam = 0 \/ FamilyOf(x) = flt.fam)
LCare(n, flt, x) == n = None \/ flt.fam = 0 \/ ~(IsMapped(x) /\ Spans4(n))
LFlatOK(q, S, flt) ==
    /\ Disjoint(q)
    /\ \A i \in 1..Len(q) :
         LET n == LpmAt(S, q[i].a) y == Succ(LastOf(q[i])) IN
         /\ n # None /\ Attr(q[i]) = Attr(n)
         /\ LCare(n, flt, q[i].a) => LWant(n, flt, q[i].a)
         /\ IF y = <<>> \/ (i < Len(q) /\ y = q[i + 1].a) THEN TRUE
            ELSE LET m == LpmAt(S, y) IN LCare(m, flt, y) => ~LWant(m, flt, y)
    /\ \A x \in (LCritical(S.q) \union {MapFirst, Succ(MapLast)}) \ {<<>>} :
         LET k == Hit(q, x) n == LpmAt(S, x) IN
         /\ LCare(n, flt, x) => (k # 0 <=> LWant(n, flt, x))
         /\ (k # 0 => n # None /\ Attr(q[k]) = Attr(n))

LAssigned(S, fam) == Of(SelectSeq(S.q, LAMBDA n : n.cc # "" /\ FamOf(n) = fam))
LBogonOK(q, A, fam) ==
    /\ Disjoint(q)
    /\ A.q = <<>> => q = <<>>
    /\ \A i \in 1..Len(q) :
         /\ ~LCovered(A, q[i].a)
         /\ LET k == LastBy(A.q, q[i].a) IN k < Len(A.q) => ~InNet(q[i], A.q[k + 1].a)
    /\ A.q # <<>> =>
       \A x \in { Zero, MapFirst, Succ(MapLast) } \union { Succ(LastOf(A.q[i])) : i \in 1..Len(A.q) }
                \union { Succ(LastOf(q[i])) : i \in 1..Len(q) } :
          (x # <<>> /\ FamilyOf(x) = fam) =>
             (LET k == LastBy(q, x) IN
              \/ (k > 0 /\ q[k].a = x) \/ LCovered(A, x) \/ (fam = 6 /\ Hit(q, x) # 0))
LBogonsOK(q4, q6, S, fam) ==
    /\ IF fam # 6 THEN LBogonOK(q4, LAssigned(S, 4), 4) ELSE q4 = <<>>
    /\ IF fam # 4 THEN LBogonOK(q6, LAssigned(S, 6), 6) ELSE q6 = <<>>
    /\ \A i \in 1..Len(q4) : FamOf(q4[i]) = 4 /\ Attr(q4[i]) = <<"", <<0, 0>>, 0>>
    /\ \A i \in 1..Len(q6) : FamOf(q6[i]) = 6 /\ Attr(q6[i]) = <<"", <<0, 0>>, 0>>

(* what is left of n without the networks of X (in order) *)
LExcludeOK(q, n, X) ==
    /\ Disjoint(q)
    /\ \A i \in 1..Len(q) : IsSub(q[i], n)
    /\ \A x \in LCritical(q) \union LCritical(X.q) \union LCritical(<<n>>) :
         InNet(n, x) => ((Hit(q, x) # 0) <=> ~LCovered(X, x))
LRemains(q, n, X) ==
    IF \E i \in 1..Len(X.q) : X.q[i].p > n.p /\ IsSub(X.q[i], n)
    THEN LExcludeOK(q, n, X) /\ \A i \in 1..Len(q) : Attr(q[i]) = Attr(n)
    ELSE q = <<>>
=============================================================================
