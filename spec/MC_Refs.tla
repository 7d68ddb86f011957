------------------------------ MODULE MC_Refs -------------------------------
(* Histories of taking and dropping references in a small world; printed for *)
(* replay.  Objects are numbered kind * 10 + n.                              *)
EXTENDS Refs, IOUtils

D == atoi(IOEnv.REFS_DEPTH)
NMAX == atoi(IOEnv.REFS_MAX)       \* objects of a kind
NN == atoi(IOEnv.REFS_NETS)        \* networks
VARIABLE hist
vars == <<held, own, val, hist>>

KD == 1  KE == 2  KN == 3  KL == 4  KA == 5  KC == 6  KAL == 7  KCL == 8  KW == 9
Kind(x) == x \div 10
OfKind(k) == { x \in Holding : Kind(x) = k }
Used(k) == { x \in DOMAIN held : Kind(x) = k /\ x # 0 }
Free(k, max) == Cardinality(Used(k)) < max
Fresh(k) == k * 10 + Cardinality(Used(k))
Ctx == 0 \in Holding

Do(op) == hist' = Append(hist, op)
New(k, max, owned, op) == /\ Free(k, max)
                          /\ LET x == Fresh(k) IN
                             Create(x, owned, [k |-> x, s |-> ""]) /\ Do(op \o <<x>>)

(* places of networks in the order of their addresses: those of the database *)
(* as a walk meets them, and two kinds of new ones between and behind them   *)
Order == <<1, 2, 3, 201, 202, 301, 302, 303, 304, 305, 306>>
NewPlace(x) == IF x % 2 = 0 THEN 100 + x ELSE 400 + x
NewNet(place, op) == /\ Free(KN, NN)
                     /\ Create(Fresh(KN), <<0>>, [k |-> place, s |-> ""])
                     /\ Do(op \o <<place, Fresh(KN)>>)

(* an enumerator without filters *)
Plain(e) == Len(own[e]) = 2
Step ==
  \/ Ctx /\ New(KD, NMAX, <<0>>, <<"open">>)
  \/ Ctx /\ \E p \in {NewPlace(Fresh(KN)), 101} : NewNet(p, <<"newnet">>)
  \/ Ctx /\ New(KL, NMAX, <<0>>, <<"newlist">>)
  \/ Ctx /\ New(KAL, 1, <<0>>, <<"newal">>)
  \/ Ctx /\ New(KCL, 1, <<0>>, <<"newcl">>)
  \/ Ctx /\ New(KA, NMAX, <<0>>, <<"newas">>)
  \/ Ctx /\ New(KC, NMAX, <<0>>, <<"newcountry">>)
  \/ Ctx /\ New(KW, NMAX, <<0>>, <<"writer">>)
  \/ \E d \in OfKind(KD) :
       \/ \E p \in {2, 304} : NewNet(p, <<"lookup", d>>)
       \/ New(KA, NMAX, <<0>>, <<"getas", d>>)
       \/ New(KC, NMAX, <<0>>, <<"getcountry", d>>)
       \/ \E t \in {"enum", "flat", "bogons"} :
            /\ Free(KE, NMAX)
            /\ Create(Fresh(KE), <<0, d>>, [k |-> 0, s |-> IF t = "enum" THEN Order ELSE <<>>])
            /\ Do(<<t, d, Fresh(KE)>>)
  \/ \E e \in OfKind(KE) :
       \/ /\ Plain(e) /\ val[e].s # <<>> /\ Free(KN, NN)
          /\ LET x == Fresh(KN) p == Head(val[e].s) IN
             /\ held' = Upd2(held, x, 1) /\ own' = Upd2(own, x, <<0>>)
             /\ val' = Upd2([val EXCEPT ![e].s = Tail(@)], x, [k |-> p, s |-> ""])
             /\ Do(<<"next", e, p, x>>)
       \/ /\ Do(<<"step", e>>) /\ UNCHANGED <<held, own>>
          /\ val' = [val EXCEPT ![e].s = IF Plain(e) /\ @ # <<>> THEN Tail(@) ELSE @]
       \/ \E c \in OfKind(KCL) : SetFilter(e, Used(KCL), c) /\ Do(<<"setcl", e, c>>)
       \/ \E a \in OfKind(KAL) : SetFilter(e, Used(KAL), a) /\ Do(<<"setal", e, a>>)
  \/ \E l \in OfKind(KL) :
       \/ \E n \in OfKind(KN) : Push(l, n) /\ Do(<<"push", l, n>>)
       \/ Members(l) # <<>> /\ TakeFirst(l) /\ Do(<<"first", l, Head(Members(l))>>)
       \/ Members(l) # <<>> /\ TakeLast(l) /\ Do(<<"last", l, Members(l)[Len(Members(l))]>>)
       \/ Members(l) # <<>> /\ Peek(l, 1) /\ Do(<<"peek", l, Head(Members(l))>>)
       \/ Members(l) # <<>> /\ ClearL(l) /\ Do(<<"clear", l>>)
       \/ \E m \in OfKind(KL) \ {l} : MergeL(l, m) /\ Do(<<"merge", l, m>>)
  \/ \E a \in OfKind(KAL), x \in OfKind(KA) : AppendU(a, x) /\ Do(<<"appendal", a, x>>)
  \/ \E c \in OfKind(KCL), x \in OfKind(KC) : AppendU(c, x) /\ Do(<<"appendcl", c, x>>)
  \/ \E a \in OfKind(KAL) : Len(own[a]) > 1 /\ ClearL(a) /\ Do(<<"clearal", a>>)
  \/ \E c \in OfKind(KCL) : Len(own[c]) > 1 /\ ClearL(c) /\ Do(<<"clearcl", c>>)
  \/ \E w \in OfKind(KW) :
       \/ /\ Free(KN, NN)
          /\ LET x == Fresh(KN) IN
             /\ held' = Upd2(held, x, 1)
             /\ own' = Upd2([own EXCEPT ![w] = Append(@, x)], x, <<0>>)
             /\ val' = Upd2(val, x, [k |-> NewPlace(x), s |-> ""])
             /\ Do(<<"addnet", w, NewPlace(x), x>>)
       \/ /\ Free(KA, NMAX)
          /\ LET x == Fresh(KA) IN
             /\ held' = Upd2(held, x, 1)
             /\ own' = Upd2([own EXCEPT ![w] = Append(@, x)], x, <<0>>)
             /\ val' = Upd2(val, x, [k |-> x, s |-> ""])
             /\ Do(<<"addas", w, x>>)
       \/ /\ Free(KC, NMAX)
          /\ LET x == Fresh(KC) IN
             /\ held' = Upd2(held, x, 1)
             /\ own' = Upd2([own EXCEPT ![w] = Append(@, x)], x, <<0>>)
             /\ val' = Upd2(val, x, [k |-> x, s |-> ""])
             /\ Do(<<"addcountry", w, x>>)
  \/ \E w \in OfKind(KW) : Do(<<"write", w>>) /\ UNCHANGED rvars
  \/ \E x \in Holding : held[x] < 2 /\ Retain(x) /\ Do(<<"retain", x>>)
  \/ \E x \in Holding : Release(x) /\ Do(<<"release", x>>)

Init == RInit /\ hist = <<>>
Next == Len(hist) < D /\ Step
Spec == Init /\ [][Next]_vars

HeldAlive == Holding \subseteq Alive
OwnedAlive == \A x \in Alive : Elems(own[x]) \subseteq Alive
NothingLeft == Holding = {} => Alive = {}
(* whatever the program can still use keeps the context alive *)
CtxAlive == Alive # {} => 0 \in Alive
Emit == Len(hist) = D => PrintT(<<"HIST", hist>>)
=============================================================================
