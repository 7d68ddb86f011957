------------------------------- MODULE Engine -------------------------------
(* How libloc does it, step by step: the writer's clean-up of the tree       *)
(* (removal of redundant networks, merging of halves), the descent of a      *)
(* lookup, the depth-first walk with its explicit stack, flattening and the  *)
(* search for gaps.  The other modules say what these must come to; MC_Engine*)
(* checks, over every small set of networks, that they do.                   *)
EXTENDS Nets, SequencesExt

Minimum(i, j) == IF i < j THEN i ELSE j
Rel(n)   == IF FamOf(n) = 4 THEN n.p - MapLen ELSE n.p       \* prefix as people write it
BitsUsed(a) == LET B == { k \in 1..AW : Bit(a, k - 1) = 1 } IN
               IF B = {} THEN 0 ELSE CHOOSE k \in B : \A j \in B : j <= k
DecA(a)  == IF a = Zero THEN Ones ELSE CHOOSE y \in AllAddr : Succ(y) = a
IncA(a)  == IF a = Ones THEN Zero ELSE Succ(a)

(* ------------------------------------------------------- sorted lists *)
PosOf(q, n)  == { i \in 1..Len(q) : SamePlace(q[i], n) }
Holds(q, n)  == PosOf(q, n) # {}
Push(q, n)   == IF Holds(q, n) THEN q
                ELSE LET k == Cardinality({ i \in 1..Len(q) : Before(q[i], n) })
                     IN SubSeq(q, 1, k) \o <<n>> \o SubSeq(q, k + 1, Len(q))
Drop(q, n)   == SelectSeq(q, LAMBDA m : ~SamePlace(m, n))
RECURSIVE PushAll(_, _)
PushAll(q, r) == IF r = <<>> THEN q ELSE PushAll(Push(q, Head(r)), Tail(r))

(* ------------------------------------------------------------ the tree *)
(* A place is a node of the tree iff it is the root or on the way to a       *)
(* network.  The walk visits networks in the order below; what is added      *)
(* during a walk lies above the current node and is not visited any more.    *)
NodeAt(S, a, p) == p = 0 \/ \E n \in S : n.p >= p /\ First(n.a, p) = First(a, p)
NetsAt(S, a, p) == { n \in S : n.p = p /\ n.a = First(a, p) }
AfterIn(S, cur) == { n \in S : cur = None \/ Before(cur, n) }
NextIn(S, cur)  == LET A == AfterIn(S, cur) IN
                   IF A = {} THEN None ELSE CHOOSE n \in A : \A m \in A : m = n \/ Before(n, m)

(* -------------------------------------- removal of redundant networks *)
(* One step of the walk; fam is the family that the filter skips, with       *)
(* everything below the network it skipped.                                  *)
Skipped(S, n, fam) == \E m \in S : IsSub(n, m) /\ FamOf(m) = fam
RECURSIVE Unwind(_, _)
Unwind(q, n) == IF q = <<>> \/ IsSub(n, q[Len(q)]) THEN q ELSE Unwind(SubSeq(q, 1, Len(q) - 1), n)
DedupStep(S, q, n) ==
    LET r == Unwind(q, n) IN
    IF r # <<>> /\ Attr(r[Len(r)]) = Attr(n)
    THEN [S |-> S \ {n}, q |-> r]
    ELSE [S |-> S, q |-> Push(r, n)]

(* ------------------------------------------------------------- merging *)
Merged(n1, n2) ==
    IF /\ FamOf(n1) = FamOf(n2) /\ n1.p = n2.p
       /\ n1.p > 0
       /\ BitsUsed(n1.a) < n1.p
       /\ IncA(LastOf(n1)) = n2.a
       /\ Attr(n1) = Attr(n2)
       /\ Rel(n1) > 0
    THEN [n1 EXCEPT !.p = @ - 1]
    ELSE None
Shorter(q, k) == SelectSeq(q, LAMBDA m : Rel(m) <= k)
RECURSIVE MergeStep(_, _, _), MergeFrom(_, _, _, _)
MergeStep(S, q, n) ==
    IF q = <<>> THEN [S |-> S, q |-> <<n>>] ELSE MergeFrom(S, q, n, Len(q))
MergeFrom(S, q, n, i) ==
    IF i = 0 THEN [S |-> S, q |-> Shorter(q, Rel(n))]
    ELSE LET o == q[i]  m == Merged(o, n) IN
         IF m = None THEN MergeFrom(S, Push(q, n), n, i - 1)
         ELSE IF NetsAt(S, m.a, m.p) # {} THEN [S |-> S, q |-> q]
         ELSE LET r == MergeStep((S \union {m}) \ ({n} \union NetsAt(S, o.a, o.p)), Drop(Push(q, m), o), m)
              IN [S |-> r.S, q |-> Shorter(r.q, Rel(n))]

(* Whole passes.  Merging two networks frees their places, which may be what *)
(* others were waiting for, so that merging is repeated until nothing is     *)
(* left to do: what is written does not depend on how often it was.          *)
RECURSIVE DedupFrom(_, _, _, _), MergePassFrom(_, _, _), MergeAll(_)
DedupFrom(S, q, cur, fam) ==
    LET n == NextIn(S, cur) IN
    IF n = None THEN S
    ELSE IF Skipped(S, n, fam) THEN DedupFrom(S, q, n, fam)
    ELSE LET r == DedupStep(S, q, n) IN DedupFrom(r.S, r.q, n, fam)
MergePassFrom(S, q, cur) ==
    LET n == NextIn(S, cur) IN
    IF n = None THEN S ELSE LET r == MergeStep(S, q, n) IN MergePassFrom(r.S, r.q, n)
MergeAll(S) == LET T == MergePassFrom(S, <<>>, None) IN IF T = S THEN S ELSE MergeAll(T)
Clean(S) == MergeAll(DedupFrom(DedupFrom(S, <<>>, None, 6), <<>>, None, 4))

(* -------------------------------------------------------------- lookup *)
RECURSIVE Descend(_, _, _)
Descend(S, x, p) ==
    LET below == IF p < AW /\ NodeAt(S, x, p + 1) THEN Descend(S, x, p + 1) ELSE None
    IN IF below # None THEN below
       ELSE IF NetsAt(S, x, p) = {} THEN None
       ELSE CHOOSE n \in NetsAt(S, x, p) : TRUE

(* ------------------------------------------ the walk of an enumerator *)
(* e = [nodes, queue]: the stack of nodes still to visit and the networks    *)
(* that were put back                                                        *)
Start == [nodes |-> <<[a |-> Zero, p |-> 0]>>, queue |-> <<>>]
Kid(v, b)  == [a |-> IF b = 1 THEN SetBit(v.a, v.p) ELSE v.a, p |-> v.p + 1]
Kids(S, v) == IF v.p = AW THEN <<>>
              ELSE SelectSeq(<<Kid(v, 1), Kid(v, 0)>>, LAMBDA k : NodeAt(S, k.a, k.p))
RECURSIVE FromTree(_, _, _, _), Fetch(_, _, _, _)
FromTree(S, e, flt, on) ==
    IF e.nodes = <<>> THEN [net |-> None, e |-> e]
    ELSE LET v  == e.nodes[Len(e.nodes)]
             f  == [e EXCEPT !.nodes = SubSeq(@, 1, Len(@) - 1) \o Kids(S, v)]
             N  == NetsAt(S, v.a, v.p)
         IN IF \E n \in N : ~on \/ MatchNet(flt, n)
            THEN [net |-> CHOOSE n \in N : TRUE, e |-> f]
            ELSE FromTree(S, f, flt, on)
Fetch(S, e, flt, on) ==
    IF e.queue = <<>> THEN FromTree(S, e, flt, on)
    ELSE LET n == Head(e.queue)  f == [e EXCEPT !.queue = Tail(@)]
         IN IF ~on \/ MatchNet(flt, n) THEN [net |-> n, e |-> f] ELSE Fetch(S, f, flt, on)

(* ----------------------------------------------------------- exclusion *)
RECURSIVE Cut(_, _, _)
Cut(n, o, q) ==
    LET h == Halves(n) IN
    IF SamePlace(o, h[1]) THEN Push(q, h[2])
    ELSE IF SamePlace(o, h[2]) THEN Push(q, h[1])
    ELSE IF IsSub(o, h[1]) THEN Cut(h[1], o, Push(q, h[2]))
    ELSE Cut(h[2], o, Push(q, h[1]))
CutTo(n, o, q) == IF ~IsSub(o, n) \/ SamePlace(o, n) THEN q ELSE Cut(n, o, q)
RECURSIVE Candidates(_, _, _), Against(_, _, _, _), Sift(_, _, _, _)
Candidates(n, X, q) == IF X = <<>> THEN q
                       ELSE Candidates(n, Tail(X), IF Holds(q, Head(X)) THEN q ELSE CutTo(n, Head(X), q))
(* compares a candidate with the excluded networks from the k-th on *)
Against(c, X, i, k) ==
    IF i > Len(X) THEN [how |-> "pass", k |-> k]
    ELSE IF IsSub(c, X[i]) THEN [how |-> "drop", k |-> k]
    ELSE IF Overlap(c, X[i]) THEN [how |-> "cut", k |-> k, by |-> X[i]]
    ELSE IF Before(c, X[i]) THEN [how |-> "pass", k |-> k]
    ELSE Against(c, X, i + 1, i)
Sift(q, X, k, out) ==
    IF q = <<>> THEN out
    ELSE LET c == Head(q) IN
         IF Holds(X, c) THEN Sift(Tail(q), X, k, out)
         ELSE LET r == Against(c, X, k, k) IN
              CASE r.how = "drop" -> Sift(Tail(q), X, r.k, out)
                [] r.how = "cut"  -> Sift(CutTo(c, r.by, Tail(q)), X, r.k, out)
                [] OTHER          -> Sift(Tail(q), X, r.k, Push(out, c))
ExcludeList(n, X) == Sift(Candidates(n, X, <<>>), X, 1, <<>>)

(* ---------------------------------------------------------- flattening *)
(* One round: [net, e]; net is None if the network was broken up or, with    *)
(* done, at the end                                                          *)
RECURSIVE Subnets(_, _, _, _)
Subnets(S, n, e, q) ==
    LET r == Fetch(S, e, [fam |-> 0], FALSE) IN
    IF r.net = None THEN [q |-> q, e |-> r.e]
    ELSE IF IsSub(r.net, n) THEN Subnets(S, n, r.e, Push(q, r.net))
    ELSE [q |-> q, e |-> [r.e EXCEPT !.queue = Push(@, r.net)]]
FlatRound(S, e, flt) ==
    LET r == Fetch(S, e, flt, TRUE) IN
    IF r.net = None THEN [net |-> None, done |-> TRUE, e |-> r.e]
    ELSE LET s == Subnets(S, r.net, r.e, <<>>) IN
         IF s.q = <<>> THEN [net |-> r.net, done |-> FALSE, e |-> s.e]
         ELSE [net |-> None, done |-> FALSE,
               e |-> [s.e EXCEPT !.queue = PushAll(PushAll(@, s.q), ExcludeList(r.net, s.q))]]

(* ---------------------------------------------------------------- gaps *)
RECURSIVE Summary(_, _, _)
Largest(a, z, from) == CHOOSE k \in from..AW :
    /\ First(a, k) = a /\ Leq(Last(a, k), z)
    /\ k = from \/ First(a, k - 1) # a \/ ~Leq(Last(a, k - 1), z)
Summary(a, z, q) ==
    LET fam == FamilyOf(z) IN
    IF ~Leq(a, z) THEN q
    ELSE IF fam = 6 /\ IsMapped(a) THEN (IF MapLast = Ones THEN q ELSE Summary(Succ(MapLast), z, q))
    ELSE LET k == Largest(a, z, IF fam = 4 THEN MapLen ELSE 0)
             n == [a |-> a, p |-> k, cc |-> "", asn |-> <<0, 0>>, fl |-> 0]
         IN IF Leq(z, LastOf(n)) THEN Push(q, n) ELSE Summary(Succ(LastOf(n)), z, Push(q, n))

(* g = [four, six]: where the gap of each family starts, <<>> once the end   *)
(* of its space has been reached                                             *)
Gaps == [four |-> MapFirst, six |-> Zero]
GapNet(g, n) ==
    LET fam == FamOf(n)
        s   == IF fam = 4 THEN g.four ELSE g.six
        d   == DecA(n.a)
        e   == IF fam = 6 /\ IsMapped(d) THEN DecA(MapFirst) ELSE d
        t   == IncA(LastOf(n))
        u   == IF fam = 6 /\ IsMapped(t) THEN IncA(MapLast) ELSE t
        w   == IF Leq(u, LastOf(n)) \/ FamilyOf(u) # fam THEN <<>> ELSE u
    IN IF s = <<>> \/ Lt(LastOf(n), s) THEN [g |-> g, q |-> <<>>]
       ELSE [g |-> IF fam = 4 THEN [g EXCEPT !.four = w] ELSE [g EXCEPT !.six = w],
             q |-> IF Lt(s, n.a) /\ Leq(s, e) THEN Summary(s, e, <<>>) ELSE <<>>]
GapEnd(g) ==
    (IF g.six # <<>> /\ g.six # Zero THEN Summary(g.six, Ones, <<>>) ELSE <<>>)
    \o (IF g.four # <<>> /\ g.four # MapFirst THEN Summary(g.four, MapLast, <<>>) ELSE <<>>)
=============================================================================
