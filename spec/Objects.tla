------------------------------ MODULE Objects -------------------------------
(* The state machine of the objects a program handles: networks, network     *)
(* lists, ASes, countries and their lists.  Objects are identified by the    *)
(* number the program gave them when it got them.                            *)
EXTENDS Text

VARIABLES nt,   \* network  -> [a, p, cc, asn, fl]
          ls,   \* list     -> the networks in it, ascending
          ao,   \* AS       -> number
          al,   \* AS list  -> set of numbers
          co,   \* country  -> [code, cont]
          cl    \* country list -> set of codes
ovars == <<nt, ls, ao, al, co, cl>>

Put(f, k, v) == (k :> v) @@ f
Empty == [x \in {} |-> 0]
OInit == nt = Empty /\ ls = Empty /\ ao = Empty /\ al = Empty /\ co = Empty /\ cl = Empty

(* ----------------------------------------------------------- networks *)
Bare(q) == [a |-> q.a, p |-> q.p, cc |-> "", asn |-> <<0, 0>>, fl |-> 0]
NNew(i, n) == nt' = Put(nt, i, n) /\ UNCHANGED <<ls, ao, al, co, cl>>
NSet(i, n) == nt' = [nt EXCEPT ![i] = n] /\ UNCHANGED <<ls, ao, al, co, cl>>

(* ------------------------------------------------------ country codes *)
(* codes are sequences of character codes *)
Upper(c) == c >= 65 /\ c <= 90
CodeOK(s) == Len(s) = 2 /\ Upper(s[1]) /\ Upper(s[2]) /\ s[1] # 88
(* A1 anonymous proxy, A2 satellite, A3 anycast, XD drop *)
Special(s) == CASE s = <<65, 49>> -> 1 [] s = <<65, 50>> -> 2 [] s = <<65, 51>> -> 4
                [] s = <<88, 68>> -> 8 [] OTHER -> 0
FlagIn(fl, v) == (v \div fl) % 2 = 1
(* 1, 0 or -1 (not a code): code is the text of the code of the network *)
Matches(n, ncode, s) == IF Special(s) # 0 THEN (IF FlagIn(Special(s), n.fl) THEN 1 ELSE 0)
                        ELSE IF ~CodeOK(s) THEN -1
                        ELSE IF ncode = s THEN 1 ELSE 0
BitOr(x, y) == LET RECURSIVE Sum(_)
                   Sum(B) == IF B = {} THEN 0 ELSE LET b == CHOOSE b \in B : TRUE IN P2[b] + Sum(B \ {b})
               IN Sum(Flags(x) \union Flags(y))

(* -------------------------------------------------------------- lists *)
Place(i) == [a |-> nt[i].a, p |-> nt[i].p]
InList(q, i) == \E k \in 1..Len(q) : Place(q[k]) = Place(i)
(* inserted before everything greater *)
Insert(q, i) == IF InList(q, i) THEN q
                ELSE LET k == Cardinality({ j \in 1..Len(q) : Before(nt[q[j]], nt[i]) })
                     IN SubSeq(q, 1, k) \o <<i>> \o SubSeq(q, k + 1, Len(q))
RECURSIVE InsertAll(_, _)
InsertAll(q, r) == IF r = <<>> THEN q ELSE InsertAll(Insert(q, Head(r)), Tail(r))

LSet(l, q) == ls' = Put(ls, l, q) /\ UNCHANGED <<nt, ao, al, co, cl>>
LPush(l, i)  == LSet(l, Insert(ls[l], i))
LMerge(l, m) == LSet(l, InsertAll(ls[l], ls[m]))
LClear(l)    == LSet(l, <<>>)
LPop(l)      == LSet(l, IF ls[l] = <<>> THEN <<>> ELSE SubSeq(ls[l], 1, Len(ls[l]) - 1))
LPopFirst(l) == LSet(l, IF ls[l] = <<>> THEN <<>> ELSE Tail(ls[l]))
LastId(q)  == IF q = <<>> THEN -2 ELSE q[Len(q)]
FirstId(q) == IF q = <<>> THEN -2 ELSE q[1]
GetId(q, k) == IF k < Len(q) THEN q[k + 1] ELSE -2      \* indices start at 0

(* the invariant of every list *)
ListInv == \A l \in DOMAIN ls : \A i \in 1..(Len(ls[l]) - 1) : Before(nt[ls[l][i]], nt[ls[l][i + 1]])

(* ------------------------------------------------- excluding networks *)
ProperSub(n, m) == IsSub(n, m) /\ ~SamePlace(n, m)
(* q is what remains of n without the networks X; nothing when no part of it is excluded *)
Remains(q, n, X) ==
    IF \E x \in X : ProperSub(x, n)
    THEN /\ ExcludeOK(q, n, X)
         /\ \A i \in 1..Len(q) : Attr(q[i]) = Attr(n)
    ELSE q = <<>>
=============================================================================
