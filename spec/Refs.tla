-------------------------------- MODULE Refs --------------------------------
(* Who keeps what alive.  The program holds references to objects; objects   *)
(* hold references to others (an enumerator to its database and its filter   *)
(* lists, a list to its members, a writer to what was added, all of them to  *)
(* the context).  An object lives as long as it can be reached.              *)
EXTENDS Integers, Sequences, FiniteSets, TLC

VARIABLES held,   \* object -> references the program holds
          own,    \* object -> the objects it holds, lists in their order
          val     \* object -> what reading it gives
rvars == <<held, own, val>>

Upd2(f, k, v) == (k :> v) @@ f
ENone == [x \in {} |-> 0]
Elems(q) == { q[i] : i \in 1..Len(q) }

Holding == { x \in DOMAIN held : held[x] > 0 }
RECURSIVE Reach(_)
Reach(S) == LET T == S \union UNION { Elems(own[x]) : x \in S } IN IF T = S THEN S ELSE Reach(T)
Alive == Reach(Holding)

RInit == held = (0 :> 1) /\ own = (0 :> <<>>) /\ val = (0 :> [k |-> 0, s |-> ""])     \* 0 is the context

(* the program gets a new object *)
Create(x, owned, v) == /\ held' = Upd2(held, x, 1)
                       /\ own'  = Upd2(own, x, owned)
                       /\ val'  = Upd2(val, x, v)
Retain(x)  == held' = [held EXCEPT ![x] = @ + 1] /\ UNCHANGED <<own, val>>
Release(x) == held' = [held EXCEPT ![x] = @ - 1] /\ UNCHANGED <<own, val>>
Link(x, y) == own' = [own EXCEPT ![x] = Append(@, y)] /\ UNCHANGED <<held, val>>

(* lists of networks: sorted by place (k), without duplicates; every list    *)
(* also holds the context, which comes first                                 *)
Members(l) == Tail(own[l])
InsertBy(q, x) ==
    IF \E i \in 1..Len(q) : val[q[i]].k = val[x].k THEN q
    ELSE LET n == Cardinality({ i \in 1..Len(q) : val[q[i]].k < val[x].k })
         IN SubSeq(q, 1, n) \o <<x>> \o SubSeq(q, n + 1, Len(q))
RECURSIVE InsertAllBy(_, _)
InsertAllBy(q, r) == IF r = <<>> THEN q ELSE InsertAllBy(InsertBy(q, Head(r)), Tail(r))
SetMembers(l, q) == own' = [own EXCEPT ![l] = <<Head(@)>> \o q]
Push(l, x)    == SetMembers(l, InsertBy(Members(l), x)) /\ UNCHANGED <<held, val>>
MergeL(l, m)  == SetMembers(l, InsertAllBy(Members(l), Members(m))) /\ UNCHANGED <<held, val>>
ClearL(l)     == SetMembers(l, <<>>) /\ UNCHANGED <<held, val>>
(* taking a member out gives its reference to the program *)
TakeFirst(l) == LET q == Members(l) IN
    /\ SetMembers(l, Tail(q)) /\ held' = [held EXCEPT ![Head(q)] = @ + 1] /\ UNCHANGED val
TakeLast(l)  == LET q == Members(l) IN
    /\ SetMembers(l, SubSeq(q, 1, Len(q) - 1)) /\ held' = [held EXCEPT ![q[Len(q)]] = @ + 1] /\ UNCHANGED val
(* looking at a member gives one more reference *)
Peek(l, i)   == held' = [held EXCEPT ![Members(l)[i]] = @ + 1] /\ UNCHANGED <<own, val>>

(* a filter replaces the one before; AS and country lists drop duplicates (k) *)
SetFilter(e, old, new) ==
    /\ own' = [own EXCEPT ![e] = Append(SelectSeq(@, LAMBDA y : y \notin old), new)]
    /\ UNCHANGED <<held, val>>
AppendU(l, x) ==
    /\ own' = [own EXCEPT ![l] = IF \E i \in 2..Len(@) : val[@[i]].k = val[x].k THEN @ ELSE Append(@, x)]
    /\ UNCHANGED <<held, val>>

Reading(x) == val[x].s
ListReading(l) == [i \in 1..Len(Members(l)) |-> Reading(Members(l)[i])]
=============================================================================
