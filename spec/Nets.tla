-------------------------------- MODULE Nets --------------------------------
(* Networks and the assignment of addresses that a set of networks means.    *)
(* A network is [a, p, cc, asn, fl]: first address, prefix length in the     *)
(* full width (an IPv4 /24 has p = 120), country code ("" is none), AS       *)
(* number and flags.  Two networks are the same place iff a and p agree.     *)
EXTENDS Addr

None == [none |-> 1]

InNet(n, x) ==
    LET k == n.p \div DB  r == n.p % DB IN
    /\ r = 0 \/ n.a[k + 1] = x[k + 1] - (x[k + 1] % P2[DB - r])
    /\ \A i \in 1..k : x[i] = n.a[i]

Attr(n) == <<n.cc, n.asn, n.fl>>
NoAttr  == <<"none">>

SamePlace(m, n) == m.p = n.p /\ m.a = n.a
LastOf(n)   == Last(n.a, n.p)
FamOf(n)    == FamilyOf(n.a)
IsSub(n, m) == n.p >= m.p /\ InNet(m, n.a)            \* n is a subset of m
Overlap(n, m) == IsSub(n, m) \/ IsSub(m, n)
Spans4(n)   == n.p < MapLen /\ InNet(n, MapFirst)     \* an IPv6 network around the IPv4 space

Cmp(m, n) == IF m.a # n.a THEN (IF Lt(m.a, n.a) THEN -1 ELSE 1)
             ELSE IF m.p < n.p THEN -1 ELSE IF m.p > n.p THEN 1 ELSE 0
Before(m, n) == Cmp(m, n) = -1

(* ------------------------------------------------------------ lookups *)
Covering(S, x) == { n \in S : InNet(n, x) }
Lpm(S, x) == LET C == Covering(S, x) IN
             IF C = {} THEN None ELSE CHOOSE n \in C : \A m \in C : m.p <= n.p
AttrAt(S, x) == LET n == Lpm(S, x) IN IF n = None THEN NoAttr ELSE Attr(n)

(* The assignment of a set of networks only changes at the first address of  *)
(* a network and right after a last one: comparing there compares everywhere *)
(* (checked exhaustively as CriticalSuffices in MC_Nets).                    *)
Critical(S) == ( { n.a : n \in S } \union { Succ(LastOf(n)) : n \in S }
                 \union { Zero } ) \ { <<>> }

AttrEq(S, T) == \A x \in Critical(S \union T) : AttrAt(S, x) = AttrAt(T, x)

(* ------------------------------------------------------- enumerations *)
SortedNets(q)  == \A i \in 1..(Len(q) - 1) : Before(q[i], q[i + 1])
Ran(q)       == { q[i] : i \in 1..Len(q) }

(* q lists exactly S, in order, each once *)
Lists(q, S) == SortedNets(q) /\ Ran(q) = S

(* The filter of a search: fam = 0 is any; cs / as are sets; the on-flags    *)
(* tell if a criterion has been given at all.                                *)
MatchAttr(flt, cc, asn, fl) ==
    \/ ~flt.con /\ ~flt.aon /\ flt.fl = {}
    \/ flt.con /\ cc \in flt.cs
    \/ flt.aon /\ asn \in flt.as
    \/ flt.fl \intersect fl # {}
(* flags are sets of bit numbers here *)
RECURSIVE BitsOf(_, _)
BitsOf(v, k) == IF k > 15 THEN {} ELSE
                (IF (v \div P2[k]) % 2 = 1 THEN {k} ELSE {}) \union BitsOf(v, k + 1)
Flags(v) == BitsOf(v, 0)
MatchNet(flt, n) == /\ (flt.fam = 0 \/ FamOf(n) = flt.fam)
                    /\ MatchAttr(flt, n.cc, n.asn, Flags(n.fl))

SearchOK(q, S, flt) == Lists(q, { n \in S : MatchNet(flt, n) })

(* A flattened enumeration: disjoint, ascending, every listed block carries  *)
(* what a lookup reports there, and together they are what matches.          *)
(* IPv6 networks around the IPv4 space belong to no single family: with a    *)
(* family filter the IPv4 addresses found in them may be listed or not.      *)
Disjoint(q) == \A i \in 1..(Len(q) - 1) :
                  LET s == Succ(LastOf(q[i])) IN s # <<>> /\ Leq(s, q[i + 1].a)
FlatWant(S, flt, x) ==
    LET n == Lpm(S, x) IN
    IF n = None THEN FALSE
    ELSE MatchAttr(flt, n.cc, n.asn, Flags(n.fl)) /\ (flt.fam = 0 \/ FamilyOf(x) = flt.fam)
FlatCare(S, flt, x) ==
    LET n == Lpm(S, x) IN
    n = None \/ flt.fam = 0 \/ ~(IsMapped(x) /\ Spans4(n))
(* the definition ... *)
FlatDef(q, S, flt) ==
    LET F == Ran(q) IN
    /\ Disjoint(q)
    /\ \A x \in (Critical(S \union F) \union {MapFirst, Succ(MapLast)}) \ {<<>>} :
         LET C == Covering(F, x) IN
         /\ FlatCare(S, flt, x) => (C # {} <=> FlatWant(S, flt, x))
         /\ \A f \in C : Attr(f) = AttrAt(S, x)
(* ... and the same with fewer comparisons (MC_Nets: FlatSame) *)
FlatOK(q, S, flt) ==
    LET F == Ran(q)
        starts == { q[i].a : i \in 1..Len(q) }
    IN
    /\ Disjoint(q)
    /\ \A f \in F : /\ Attr(f) = AttrAt(S, f.a)
                    /\ FlatCare(S, flt, f.a) => FlatWant(S, flt, f.a)
    /\ \A x \in (Critical(S) \union {MapFirst, Succ(MapLast)}) \ {<<>>} :
         LET C == Covering(F, x) IN
         /\ FlatCare(S, flt, x) => (C # {} <=> FlatWant(S, flt, x))
         /\ \A f \in C : Attr(f) = AttrAt(S, x)
    /\ \A f \in F : LET x == Succ(LastOf(f)) IN
         x # <<>> /\ x \notin starts /\ FlatCare(S, flt, x) => ~FlatWant(S, flt, x)

(* the places alone: blocks that cover exactly what matches *)
CoverOK(q, S, flt) ==
    LET F == Ran(q)
        starts == { q[i].a : i \in 1..Len(q) }
    IN
    /\ Disjoint(q)
    /\ \A f \in F : FlatCare(S, flt, f.a) => FlatWant(S, flt, f.a)
    /\ \A x \in (Critical(S) \union {MapFirst, Succ(MapLast)}) \ {<<>>} :
         FlatCare(S, flt, x) => (Covering(F, x) # {} <=> FlatWant(S, flt, x))
    /\ \A g \in F : LET y == Succ(LastOf(g)) IN
         y # <<>> /\ y \notin starts /\ FlatCare(S, flt, y) => ~FlatWant(S, flt, y)

(* ------------------------------------------------------------- bogons *)
(* What is assigned in a family: everything below a network with a country.  *)
(* An IPv6 block that happens to lie around the IPv4 space says nothing      *)
(* about IPv4 addresses, so each family is judged on its own addresses.      *)
Assigned(S, fam) == { n \in S : n.cc # "" /\ FamOf(n) = fam }
BogonDef(B, A, fam) ==
    LET pts == { x \in (Critical(A \union B) \union {MapFirst, Succ(MapLast)}) \ {<<>>} : FamilyOf(x) = fam }
    IN \A x \in pts : Cardinality(Covering(B, x)) =
                        (IF A # {} /\ Covering(A, x) = {} THEN 1 ELSE 0)
(* the same for blocks given in ascending order (MC_Nets: BogonSame) *)
BogonOK(q, A, fam) ==
    LET starts == { q[i].a : i \in 1..Len(q) }
        B == Ran(q)
    IN
    /\ Disjoint(q)
    /\ A = {} => q = <<>>
    /\ \A b \in B : Covering(A, b.a) = {} /\ \A n \in A : ~InNet(b, n.a)
    /\ A # {} =>
       \A x \in { Zero, MapFirst, Succ(MapLast) } \union { Succ(LastOf(n)) : n \in A }
                \union { Succ(LastOf(b)) : b \in B } :
          x # <<>> /\ FamilyOf(x) = fam =>
             x \in starts \/ Covering(A, x) # {} \/ (fam = 6 /\ Covering(B, x) # {})
(* q4, q6: the listed blocks of each family (order is not promised, so they  *)
(* are given sorted); fam is the filter                                      *)
BogonsOK(q4, q6, S, fam) ==
    /\ IF fam # 6 THEN BogonOK(q4, Assigned(S, 4), 4) ELSE q4 = <<>>
    /\ IF fam # 4 THEN BogonOK(q6, Assigned(S, 6), 6) ELSE q6 = <<>>
    /\ \A n \in Ran(q4) : FamOf(n) = 4
    /\ \A n \in Ran(q6) : FamOf(n) = 6
    /\ \A n \in Ran(q4) \union Ran(q6) : Attr(n) = <<"", <<0, 0>>, 0>>

(* --------------------------------------------------------- arithmetic *)
Halves(n) == << [n EXCEPT !.p = @ + 1],
                [n EXCEPT !.p = @ + 1, !.a = SetBit(@, n.p)] >>
CanSplit(n) == n.p < AW

(* q covers exactly n minus the union of X, disjointly and in order *)
ExcludeOK(q, n, X) ==
    LET F == Ran(q) IN
    /\ Disjoint(q)
    /\ \A f \in F : IsSub(f, n)
    /\ \A x \in Critical(F \union X \union {n}) :
         InNet(n, x) => ((Covering(F, x) # {}) <=> (Covering(X, x) = {}))
=============================================================================
