----------------------------- MODULE TraceLots ------------------------------
(* Validation of recorded executions with thousands of networks (Lots), and  *)
(* of network lists of tens of thousands of hosts: those are sets of numbers *)
(* (the offsets of the hosts from a base address).                           *)
EXTENDS Lots, Json, IOUtils, TLC, FiniteSets
RealMap == <<0, 0, 0, 0, 0, 65535>>
Traces  == JsonDeserialize(IOEnv.TRACES)
Checked == LET s == JsonDeserialize(IOEnv.CHECKED) IN { s[i] : i \in 1..Len(s) }
VARIABLES tid, l, ok, S, D, ls, base
vars == <<tid, l, ok, S, D, ls, base>>
Ev == Traces[tid].ev
TInit == /\ tid \in 1..Len(Traces) /\ l = 1 /\ ok = TRUE
         /\ S = Of(<<>>) /\ D = Of(<<>>) /\ ls = [i \in 1..4 |-> {}] /\ base = Zero
Judge(class, bad) ==
    LET b == IF class \in Checked THEN bad ELSE {} IN
    /\ ok' = (b = {})
    /\ (b # {} => PrintT(<<"REJECT", tid, l, b>>))
Bad(c) == IF c THEN {} ELSE {0}
Filter(e) == [ fam |-> e.fam, con |-> e.con, aon |-> e.aon, fl |-> Flags(e.fl), cs |-> Ran(e.cs), as |-> Ran(e.as) ]
WellNets(q) == \A i \in 1..Len(q) : Len(q[i].a) = ND /\ q[i].p \in 0..AW /\ q[i].a = First(q[i].a, q[i].p)

(* ------------------------------------------------------------- lists *)
Key(n) == IF n # None /\ n.p = AW /\ SubSeq(n.a, 1, 6) = SubSeq(base, 1, 6) /\ n.a[7] < 8192
          THEN (n.a[7] * 65536) + n.a[8] ELSE -1
Below(A, k) == Cardinality({ x \in A : x < k })
At(A, i, k) == IF i >= Cardinality(A) THEN k = -1 ELSE k \in A /\ Below(A, k) = i
Keys(q) == [i \in 1..Len(q) |-> Key(q[i])]
Rising(q) == \A i \in 1..(Len(q) - 1) : q[i] < q[i + 1]

Dispatch(e) ==
  CASE e.e = "lots" -> \* networks (in their order) that have been written
         /\ Assert(SortedNets(e.nets), "not in order")
         /\ S' = Of(e.nets) /\ UNCHANGED <<D, ls, base>> /\ Judge("setup", Bad(e.r = "ok"))
    [] e.e = "stored" -> \* what the file lists: it means the same
         /\ D' = Of(e.nets) /\ UNCHANGED <<S, ls, base>>
         /\ Judge("write", Bad(e.r = "ok" /\ e.more = 0 /\ WellNets(e.nets) /\ SortedNets(e.nets) /\ LAttrEq(S, D')))
    [] e.e = "lookups" ->
         /\ Judge("lookup", { i \in 1..Len(e.qs) : ~(e.qs[i].r = "ok" /\ e.qs[i].net = LpmAt(D, e.qs[i].x)) })
         /\ UNCHANGED <<S, D, ls, base>>
    [] e.e = "walk" ->
         /\ Judge(e.class, Bad(e.r = "ok" /\ e.more = 0 /\ WellNets(e.nets) /\
                               (IF e.flat THEN LFlatOK(e.nets, D, Filter(e)) ELSE LSearchOK(e.nets, D, Filter(e)))))
         /\ UNCHANGED <<S, D, ls, base>>
    [] e.e = "bogons" ->
         /\ Judge("bogons", Bad(e.r = "ok" /\ WellNets(e.q4) /\ WellNets(e.q6) /\ LBogonsOK(e.q4, e.q6, D, e.fam)))
         /\ UNCHANGED <<S, D, ls, base>>
    [] e.e = "exclude" -> \* from n, the networks S
         /\ Judge("arith", Bad(e.null = 0 /\ WellNets(e.nets) /\ LRemains(e.nets, e.net, S)))
         /\ UNCHANGED <<S, D, ls, base>>
    (* lists *)
    [] e.e = "base" -> base' = e.a /\ UNCHANGED <<S, D, ls>> /\ Judge("setup", {})
    [] e.e = "fill" -> \* hosts from, from + step, ... (n of them)
         /\ ls' = [ls EXCEPT ![e.l] = @ \union { e.from + (k * e.step) : k \in 0..(e.n - 1) }]
         /\ UNCHANGED <<S, D, base>> /\ Judge("list", Bad(e.r = "ok"))
    [] e.e = "merge" -> /\ ls' = [ls EXCEPT ![e.l] = @ \union ls[e.m]]
                        /\ UNCHANGED <<S, D, base>> /\ Judge("list", Bad(e.r = "ok"))
    [] e.e = "clear" -> ls' = [ls EXCEPT ![e.l] = {}] /\ UNCHANGED <<S, D, base>> /\ Judge("list", {})
    [] e.e = "size" -> /\ Judge("list", Bad(e.n = Cardinality(ls[e.l]))) /\ UNCHANGED <<S, D, ls, base>>
    [] e.e = "gets" -> /\ Judge("list", { i \in 1..Len(e.qs) : ~At(ls[e.l], e.qs[i].i, Key(e.qs[i].net)) })
                       /\ UNCHANGED <<S, D, ls, base>>
    [] e.e = "has" -> /\ Judge("list", { i \in 1..Len(e.qs) : e.qs[i].v # (IF e.qs[i].k \in ls[e.l] THEN 1 ELSE 0) })
                      /\ UNCHANGED <<S, D, ls, base>>
    [] e.e = "pops" -> \* one after the other, from the end or the beginning
         LET q == Keys(e.nets) A == ls[e.l] R == Ran(q) n == Len(q) IN
         /\ ls' = [ls EXCEPT ![e.l] = @ \ R] /\ UNCHANGED <<S, D, base>>
         /\ Judge("list", Bad(/\ R \subseteq A /\ Cardinality(R) = n
                              /\ (IF e.first THEN /\ Rising(q) /\ Below(A, q[n]) = n - 1
                                  ELSE /\ Rising(Reverse(q)) /\ Below(A, q[n]) = Cardinality(A) - n)))
    [] e.e = "all" -> \* the whole list: runs of hosts in steps
         /\ Judge("list", LET q == Keys(e.nets) IN Bad(Rising(q) /\ Ran(q) = ls[e.l]))
         /\ UNCHANGED <<S, D, ls, base>>
    [] OTHER -> /\ UNCHANGED <<S, D, ls, base>> /\ Judge("crash", {0})
TNext == /\ ok /\ l <= Len(Ev) /\ l' = l + 1 /\ tid' = tid
         /\ Dispatch(Ev[l])
TSpec == TInit /\ [][TNext]_vars
=============================================================================
