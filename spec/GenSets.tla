------------------------------ MODULE GenSets -------------------------------
(* Enumerates the small worlds that are replayed into the library: every set *)
(* of at most K blocks of a W bit space with every choice of attributes, and *)
(* what the specification says a lookup of every address gives.              *)
EXTENDS Nets, Json, IOUtils, SequencesExt, FiniteSetsExt

K  == atoi(IOEnv.GEN_K)
NA == atoi(IOEnv.GEN_ATTRS)      \* number of different attributes (0: all distinct)
SmallMap == <<>>                 \* no second family inside: the embedding decides

Addrs == SetToSeq(AllAddr)
Val(a) == LET RECURSIVE V(_, _)
              V(i, acc) == IF i > ND THEN acc ELSE V(i + 1, acc * 2 + a[i])
          IN V(1, 0)

AttrChoices(n) == IF NA = 0 THEN { [i \in 1..n |-> i] } ELSE [1..n -> 1..NA]

World(B, c) ==
    LET q == SetToSeq(B)
        S == { [a |-> q[i].a, p |-> q[i].p, cc |-> "", asn |-> <<0, c[i]>>, fl |-> i] : i \in 1..Len(q) }
    IN [ nets |-> [i \in 1..Len(q) |-> [v |-> Val(q[i].a), p |-> q[i].p, k |-> c[i]]],
         want |-> [i \in 1..Len(Addrs) |->
                     LET n == Lpm(S, Addrs[i]) IN
                     [v |-> Val(Addrs[i]), i |-> IF n = None THEN 0 ELSE n.fl]] ]

Worlds == UNION { { World(B, c) : c \in AttrChoices(Cardinality(B)) } :
                  B \in UNION { kSubset(k, AllBlocks) : k \in 0..K } }

VARIABLE done
Init == done = FALSE
Next == ~done /\ done' = JsonSerialize(IOEnv.GEN_OUT, SetToSeq(Worlds))
Spec == Init /\ [][Next]_done
=============================================================================
