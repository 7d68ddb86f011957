----------------------------- MODULE TraceRefs ------------------------------
(* Validation of recorded histories of references against Refs: everything   *)
(* that is held reads as before, everything is released in the end.          *)
EXTENDS Refs, Json, IOUtils

Traces  == JsonDeserialize(IOEnv.TRACES)
VARIABLES tid, l, ok
vars == <<held, own, val, tid, l, ok>>
Ev == Traces[tid].ev
TInit == RInit /\ tid \in 1..Len(Traces) /\ l = 1 /\ ok = TRUE
Judge(bad) == /\ ok' = (bad = {})
              /\ (bad # {} => PrintT(<<"REJECT", tid, l, bad>>))
Bad(c) == IF c THEN {} ELSE {0}

Dispatch(e) ==
  CASE e.e = "create"  -> Create(e.x, e.owns, e.val) /\ Judge(Bad(e.r = "ok"))
    [] e.e = "add"     -> \* added to a writer, which holds it as well
                          /\ held' = Upd2(held, e.x, 1)
                          /\ own'  = Upd2([own EXCEPT ![e.w] = Append(@, e.x)], e.x, <<0>>)
                          /\ val'  = Upd2(val, e.x, e.val)
                          /\ Judge(Bad(e.r = "ok"))
    [] e.e = "next"    -> \* the next of a walk; the program holds it if there was a slot for it
                          LET w == val[e.from] good == w.s # <<>> /\ e.r = "ok" /\ e.val.s = Head(w.s) IN
                          /\ Judge(Bad(good))
                          /\ held' = Upd2(held, e.x, 1) /\ own' = Upd2(own, e.x, <<0>>)
                          /\ val'  = Upd2(IF good THEN [val EXCEPT ![e.from].s = Tail(@)] ELSE val, e.x, e.val)
    [] e.e = "step"    -> \* with filters, anything may come
                          LET w == val[e.from] plain == Len(own[e.from]) = 2 /\ ~w.flt IN
                          /\ Judge(Bad(e.r = "ok" /\ (plain => e.s = (IF w.s = <<>> THEN "none" ELSE Head(w.s)))))
                          /\ val' = [val EXCEPT ![e.from].s = IF plain /\ @ # <<>> THEN Tail(@) ELSE @]
                          /\ UNCHANGED <<held, own>>
    [] e.e = "write"   -> \* a writer still has all that was added to it
                          /\ Judge(Bad(e.r = "ok" /\ Elems(e.stored) = { Reading(x) : x \in { y \in Elems(own[e.w]) : y \div 10 = 3 } }))
                          /\ UNCHANGED rvars
    [] e.e = "retain"  -> Retain(e.x) /\ Judge({})
    [] e.e = "release" -> Release(e.x) /\ Judge({})
    [] e.e = "push"    -> Push(e.l, e.x) /\ Judge(Bad(e.r = "ok"))
    [] e.e = "first"   -> TakeFirst(e.l) /\ Judge(Bad(e.id = Head(Members(e.l))))
    [] e.e = "last"    -> TakeLast(e.l) /\ Judge(Bad(e.id = Members(e.l)[Len(Members(e.l))]))
    [] e.e = "peek"    -> Peek(e.l, e.k) /\ Judge(Bad(e.id = Members(e.l)[e.k]))
    [] e.e = "clear"   -> ClearL(e.l) /\ Judge({})
    [] e.e = "merge"   -> MergeL(e.l, e.m) /\ Judge(Bad(e.r = "ok"))
    [] e.e = "appendu" -> AppendU(e.l, e.x) /\ Judge(Bad(e.r = "ok"))
    [] e.e = "filter"  -> SetFilter(e.x, { y \in DOMAIN held : y \div 10 = e.y \div 10 }, e.y)
                          /\ Judge(Bad(e.r = "ok"))
    [] e.e = "uses"    -> \* all that is held is read
                          /\ Judge({ i \in 1..Len(e.qs) : LET q == e.qs[i] IN
                                ~(q.x \in Holding /\
                                  (CASE q.t = "val"  -> q.s = Reading(q.x)
                                     [] q.t = "list" -> q.s = ListReading(q.x)
                                     [] q.t = "set"  -> Elems(q.s) = Elems(ListReading(q.x))
                                     [] q.t = "none" -> TRUE)) }
                                \union Bad({ e.qs[i].x : i \in 1..Len(e.qs) } = Holding \ {0}))
                          /\ UNCHANGED rvars
    [] e.e = "fault"   -> \* an operation that must fail and change nothing
                          Judge(Bad(e.r \in {"err", "busy", "none"})) /\ UNCHANGED rvars
    [] e.e = "mem"     -> /\ Judge(Bad(Alive = {} => e.live = 0 /\ e.fd = e.fd0)
                                   \union Bad(Alive = {0} => e.live = e.live0 /\ e.fd = e.fd0))
                          /\ UNCHANGED rvars
    [] OTHER           -> Judge({0}) /\ UNCHANGED rvars
TNext == ok /\ l <= Len(Ev) /\ l' = l + 1 /\ tid' = tid /\ Dispatch(Ev[l])
TSpec == TInit /\ [][TNext]_vars
=============================================================================
