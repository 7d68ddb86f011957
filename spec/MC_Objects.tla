----------------------------- MODULE MC_Objects -----------------------------
(* The list machine of Objects, explored exhaustively: under every history   *)
(* of operations a list is the ascending enumeration of the set of places    *)
(* pushed and not removed, and keeps the first object of a place.            *)
EXTENDS Objects, SequencesExt

SmallMap == <<1>>
VARIABLE S          \* list -> set of objects: the abstract meaning
allvars == <<nt, ls, ao, al, co, cl, S>>

(* objects 1..5; 5 is another object at the place of 1 *)
Obj == [ i \in 1..5 |-> CASE i = 1 -> [a |-> <<0, 0>>, p |-> 1, cc |-> "", asn |-> <<0, 1>>, fl |-> 0]
                          [] i = 2 -> [a |-> <<0, 0>>, p |-> 2, cc |-> "", asn |-> <<0, 2>>, fl |-> 0]
                          [] i = 3 -> [a |-> <<0, 1>>, p |-> 2, cc |-> "", asn |-> <<0, 3>>, fl |-> 0]
                          [] i = 4 -> [a |-> <<1, 0>>, p |-> 1, cc |-> "", asn |-> <<0, 4>>, fl |-> 0]
                          [] i = 5 -> [a |-> <<0, 0>>, p |-> 1, cc |-> "", asn |-> <<0, 5>>, fl |-> 0] ]
Ls == {1, 2}
Init == /\ nt = Obj /\ ls = [x \in Ls |-> <<>>] /\ S = [x \in Ls |-> {}]
        /\ ao = Empty /\ al = Empty /\ co = Empty /\ cl = Empty

AddTo(T, i) == IF \E j \in T : SamePlace(nt[j], nt[i]) THEN T ELSE T \union {i}
Greatest(T) == CHOOSE i \in T : \A j \in T : i = j \/ Before(nt[j], nt[i])
Least(T) == CHOOSE i \in T : \A j \in T : i = j \/ Before(nt[i], nt[j])

Next == \E x \in Ls :
    \/ \E i \in 1..5 : LPush(x, i) /\ S' = [S EXCEPT ![x] = AddTo(@, i)]
    \/ LPop(x) /\ S' = [S EXCEPT ![x] = IF @ = {} THEN {} ELSE @ \ {Greatest(@)}]
    \/ LPopFirst(x) /\ S' = [S EXCEPT ![x] = IF @ = {} THEN {} ELSE @ \ {Least(@)}]
    \/ LClear(x) /\ S' = [S EXCEPT ![x] = {}]
    \/ \E y \in Ls \ {x} : LMerge(x, y) /\ S' = [S EXCEPT ![x] =
            @ \union { i \in S[y] : ~\E j \in S[x] : SamePlace(nt[i], nt[j]) }]
Spec == Init /\ [][Next]_allvars

Meaning == \A x \in Ls : ToSet(ls[x]) = S[x] /\ Len(ls[x]) = Cardinality(S[x])
Ends == \A x \in Ls : /\ LastId(ls[x]) = (IF S[x] = {} THEN -2 ELSE Greatest(S[x]))
                      /\ FirstId(ls[x]) = (IF S[x] = {} THEN -2 ELSE Least(S[x]))
=============================================================================
