------------------------------ MODULE TraceObj ------------------------------
(* Validation of recorded executions against Objects; see TraceDB.           *)
EXTENDS Objects, Json, IOUtils

RealMap == <<0, 0, 0, 0, 0, 65535>>
Traces  == JsonDeserialize(IOEnv.TRACES)
Checked == LET s == JsonDeserialize(IOEnv.CHECKED) IN { s[i] : i \in 1..Len(s) }

VARIABLES tid, l, ok
vars == <<nt, ls, ao, al, co, cl, tid, l, ok>>
Ev == Traces[tid].ev
TInit == OInit /\ tid \in 1..Len(Traces) /\ l = 1 /\ ok = TRUE

Judge(class, bad) ==
    LET b == IF class \in Checked THEN bad ELSE {} IN
    /\ ok' = (b = {})
    /\ (b # {} => PrintT(<<"REJECT", tid, l, b>>))
Bad(cond) == IF cond THEN {} ELSE {0}

WellNet(n) == /\ DOMAIN n = {"a", "p", "cc", "asn", "fl"} /\ Len(n.a) = ND /\ n.p \in 0..AW
              /\ n.a = First(n.a, n.p)
WellNets(q) == \A i \in 1..Len(q) : WellNet(q[i])
B(x) == IF x THEN 1 ELSE 0
Same == UNCHANGED ovars

Dispatch(e) ==
  CASE e.e = "n.new" -> \* text, then properties that are all right
         LET q == ParseNet(e.chars)
             w == IF q = No THEN None ELSE [Bare(q) EXCEPT !.cc = e.cc, !.asn = e.asn, !.fl = e.fl] IN
         /\ Judge("parse", Bad(IF q = No THEN e.r = "err" /\ e.net = None ELSE e.r = "ok" /\ e.net = w))
         /\ IF e.net = None THEN Same ELSE NNew(e.i, e.net)
    [] e.e = "n.parses" -> \* a group of texts
         /\ Judge("parse", { i \in 1..Len(e.qs) :
              LET q == ParseNet(e.qs[i].chars) x == e.qs[i] IN
              ~(IF q = No THEN x.r = "err" /\ x.net = None ELSE x.r = "ok" /\ x.net = Bare(q)) })
         /\ Same
    [] e.e = "n.news" -> \* many networks, taken as they are
         /\ nt' = [i \in (e.base + 1)..(e.base + Len(e.nets)) |-> e.nets[i - e.base]] @@ nt
         /\ UNCHANGED <<ls, ao, al, co, cl>> /\ Judge("setup", {})
    [] e.e = "n.newbin" ->
         LET m == IsMapped(e.x)
             good == e.pfx <= (IF m THEN AW - MapLen ELSE AW)
             p == IF m THEN e.pfx + MapLen ELSE e.pfx IN
         /\ Judge("arith", Bad(IF good THEN e.r = "ok" /\ e.net = Bare([a |-> First(e.x, p), p |-> p])
                               ELSE e.r = "err" /\ e.net = None))
         /\ IF e.net = None THEN Same ELSE NNew(e.i, e.net)
    [] e.e = "n.get" -> LET n == nt[e.i] IN
         /\ Judge("arith", Bad(/\ e.net = n /\ e.last = LastOf(n) /\ e.fam = FamOf(n)
                               /\ e.pfx = (IF FamOf(n) = 4 THEN n.p - MapLen ELSE n.p)))
         /\ Same
    [] e.e = "n.text" -> LET n == nt[e.i] IN
         /\ Judge("text", Bad(ShowsNet(e.str, n) /\ ShowsAddr(e.fstr, n.a) /\ ShowsAddr(e.lstr, LastOf(n))))
         /\ Same
    [] e.e = "n.rp" -> LET n == nt[e.i] IN
         /\ Judge("text", Bad(IF ReverseOK(n) THEN e.r = "ok" /\ e.s = ReverseName(n, e.suffix) ELSE e.r = "err"))
         /\ Same
    [] e.e = "n.setcc" -> LET good == e.chars = <<>> \/ CodeOK(e.chars) IN
         /\ Judge("attr", Bad(/\ e.r = (IF good THEN "ok" ELSE "err")
                              /\ e.net = (IF good THEN [nt[e.i] EXCEPT !.cc = e.cc] ELSE nt[e.i])))
         /\ NSet(e.i, e.net)
    [] e.e = "n.setasn" -> /\ Judge("attr", Bad(e.r = "ok" /\ e.net = [nt[e.i] EXCEPT !.asn = e.asn]))
                           /\ NSet(e.i, e.net)
    [] e.e = "n.setflag" -> /\ Judge("attr", Bad(e.r = "ok" /\ e.net = [nt[e.i] EXCEPT !.fl = BitOr(@, e.fl)]))
                            /\ NSet(e.i, e.net)
    [] e.e = "n.hasflag" -> /\ Judge("attr", Bad(e.v = B(Flags(e.fl) \intersect Flags(nt[e.i].fl) # {}))) /\ Same
    [] e.e = "n.matchcc" -> /\ Judge("attr", Bad(e.v = Matches(nt[e.i], e.ncode, e.chars))) /\ Same
    [] e.e = "n.matchaddr" -> /\ Judge("arith", { i \in 1..Len(e.qs) : e.qs[i].v # B(InNet(nt[e.i], e.qs[i].x)) }) /\ Same
    [] e.e = "n.rel" -> LET m == nt[e.i] n == nt[e.j] IN
         /\ Judge("arith", Bad(/\ e.cmp = Cmp(m, n) /\ e.rcmp = -Cmp(m, n)
                               /\ e.overlaps = B(Overlap(m, n))
                               /\ e.subnet = B(IsSub(n, m)) /\ e.rsubnet = B(IsSub(m, n))))
         /\ Same
    [] e.e = "n.subnets" -> LET n == nt[e.i] IN
         /\ Judge("arith", Bad(IF CanSplit(n) THEN e.r = "ok" /\ <<e.n1, e.n2>> = Halves(n) ELSE e.r = "err"))
         /\ Same
    [] e.e = "n.exclude" ->
         /\ Judge("arith", Bad(e.null = 0 /\ WellNets(e.nets) /\ Remains(e.nets, nt[e.i], {nt[e.j]})))
         /\ Same
    [] e.e = "n.excludelist" -> LET q == ls[e.l] IN
         /\ Judge("arith", Bad(e.null = 0 /\ WellNets(e.nets)
                               /\ Remains(e.nets, nt[e.i], { nt[q[k]] : k \in 1..Len(q) })))
         /\ Same
    [] e.e = "l.new"   -> LSet(e.l, <<>>) /\ Judge("list", Bad(e.r = "ok"))
    [] e.e = "l.push"  -> LPush(e.l, e.i) /\ Judge("list", Bad(e.r = "ok"))
    [] e.e = "l.pushes" -> LSet(e.l, InsertAll(ls[e.l], e.is)) /\ Judge("list", Bad(e.r = "ok"))
    [] e.e = "l.bulk"  -> \* many pushes at once; ids is the list afterwards
         LET old == ls[e.l] all == old \o e.is
             places == { Place(all[k]) : k \in 1..Len(all) }
         IN
         /\ Judge("list", Bad(/\ e.r = "ok"
                              /\ \A k \in 1..Len(e.ids) : e.ids[k] \in DOMAIN nt
                              /\ \A k \in 1..(Len(e.ids) - 1) : Before(nt[e.ids[k]], nt[e.ids[k + 1]])
                              /\ { Place(e.ids[k]) : k \in 1..Len(e.ids) } = places
                              \* the first one of a place is kept
                              /\ \A k \in 1..Len(e.dups) : \A m \in 1..Len(e.ids) : e.ids[m] # e.dups[k]))
         /\ LSet(e.l, e.ids)
    [] e.e = "l.merge" -> LMerge(e.l, e.m) /\ Judge("list", Bad(e.r = "ok"))
    [] e.e = "l.clear" -> LClear(e.l) /\ Judge("list", {})
    [] e.e = "l.pop"   -> LPop(e.l) /\ Judge("list", Bad(e.id = LastId(ls[e.l])))
    [] e.e = "l.popfirst" -> LPopFirst(e.l) /\ Judge("list", Bad(e.id = FirstId(ls[e.l])))
    [] e.e = "l.get"   -> Same /\ Judge("list", Bad(e.id = GetId(ls[e.l], e.k)))
    [] e.e = "l.contains" -> Same /\ Judge("list", Bad(e.v = B(InList(ls[e.l], e.i))))
    [] e.e = "l.all"   -> Same /\ Judge("list", Bad(/\ e.ids = ls[e.l] /\ e.size = Len(ls[e.l])
                                                    /\ e.empty = B(ls[e.l] = <<>>) /\ e.beyond = 0))
    [] e.e = "cc.valid" -> Same /\ Judge("attr", Bad(e.v = B(CodeOK(e.chars))))
    [] e.e = "cc.flag"  -> Same /\ Judge("attr", Bad(IF e.chars = <<>> THEN e.v < 0 ELSE e.v = Special(e.chars)))
    [] e.e = "c.new" -> /\ Judge("attr", Bad(e.r = (IF CodeOK(e.chars) THEN "ok" ELSE "err")))
                        /\ IF e.r = "ok" THEN /\ co' = Put(co, e.c, [code |-> e.code, k |-> e.k, cont |-> "", name |-> ""])
                                              /\ UNCHANGED <<nt, ls, ao, al, cl>>
                           ELSE Same
    [] e.e = "c.setcont" -> /\ LET good == Len(e.chars) = 2 w == IF good THEN [co[e.c] EXCEPT !.cont = e.cont] ELSE co[e.c] IN
                               /\ Judge("attr", Bad(/\ e.r = (IF good THEN "ok" ELSE "err")
                                                    /\ e.got = [code |-> w.code, cont |-> w.cont]))
                               /\ co' = [co EXCEPT ![e.c] = w]
                            /\ UNCHANGED <<nt, ls, ao, al, cl>>
    [] e.e = "c.setname" -> /\ Judge("attr", Bad(/\ e.r = "ok"
                                                 /\ e.got = [code |-> co[e.c].code, cont |-> co[e.c].cont, name |-> e.name]))
                            /\ co' = [co EXCEPT ![e.c].name = e.name]
                            /\ UNCHANGED <<nt, ls, ao, al, cl>>
    [] e.e = "c.get" -> Same /\ Judge("attr", Bad(e.got = [code |-> co[e.c].code, cont |-> co[e.c].cont, name |-> co[e.c].name]))
    [] e.e = "a.setname" -> Same /\ Judge("attr", Bad(e.r = "ok" /\ e.got = [n |-> ao[e.a], name |-> e.name]))
    [] e.e = "c.cmp" -> Same /\ Judge("attr", Bad(e.v = (IF co[e.c].k < co[e.d].k THEN -1
                                                         ELSE IF co[e.c].k > co[e.d].k THEN 1 ELSE 0)))
    [] e.e = "cl.new" -> cl' = Put(cl, e.l, {}) /\ UNCHANGED <<nt, ls, ao, al, co>> /\ Judge("attr", Bad(e.r = "ok"))
    [] e.e = "cl.append" -> /\ cl' = [cl EXCEPT ![e.l] = @ \union {co[e.c].k}]
                            /\ UNCHANGED <<nt, ls, ao, al, co>> /\ Judge("attr", Bad(e.r = "ok"))
    [] e.e = "cl.clear" -> cl' = [cl EXCEPT ![e.l] = {}] /\ UNCHANGED <<nt, ls, ao, al, co>> /\ Judge("attr", {})
    [] e.e = "cl.has" -> Same /\ Judge("attr", Bad(e.v = B(e.k \in cl[e.l])))
    [] e.e = "cl.all" -> /\ Judge("attr", Bad(/\ Len(e.ks) = e.size /\ e.size = Cardinality(cl[e.l])
                                              /\ { e.ks[i] : i \in 1..Len(e.ks) } = cl[e.l]
                                              /\ e.empty = B(cl[e.l] = {}) /\ e.beyond = 0
                                              /\ e.sorted => \A i \in 1..(Len(e.ks) - 1) : e.ks[i] < e.ks[i + 1]))
                         /\ Same
    [] e.e = "a.new" -> ao' = Put(ao, e.a, e.n) /\ UNCHANGED <<nt, ls, al, co, cl>> /\ Judge("attr", Bad(e.r = "ok"))
    [] e.e = "a.cmp" -> LET x == ao[e.a] y == ao[e.b]
                            lt(u, v) == u[1] < v[1] \/ (u[1] = v[1] /\ u[2] < v[2]) IN
                        Same /\ Judge("attr", Bad(e.v = (IF lt(x, y) THEN -1 ELSE IF lt(y, x) THEN 1 ELSE 0)))
    [] e.e = "al.new" -> al' = Put(al, e.l, {}) /\ UNCHANGED <<nt, ls, ao, co, cl>> /\ Judge("attr", Bad(e.r = "ok"))
    [] e.e = "al.append" -> /\ al' = [al EXCEPT ![e.l] = @ \union {ao[e.a]}]
                            /\ UNCHANGED <<nt, ls, ao, co, cl>> /\ Judge("attr", Bad(e.r = "ok"))
    [] e.e = "al.bulk" -> /\ al' = [al EXCEPT ![e.l] = @ \union { e.ns[i] : i \in 1..Len(e.ns) }]
                          /\ UNCHANGED <<nt, ls, ao, co, cl>> /\ Judge("attr", Bad(e.r = "ok"))
    [] e.e = "al.clear" -> al' = [al EXCEPT ![e.l] = {}] /\ UNCHANGED <<nt, ls, ao, co, cl>> /\ Judge("attr", {})
    [] e.e = "al.has" -> Same /\ Judge("attr", Bad(e.v = B(e.n \in al[e.l])))
    [] e.e = "al.all" -> /\ Judge("attr", Bad(/\ Len(e.ns) = e.size /\ e.size = Cardinality(al[e.l])
                                              /\ { e.ns[i] : i \in 1..Len(e.ns) } = al[e.l]
                                              /\ e.empty = B(al[e.l] = {}) /\ e.beyond = 0
                                              /\ e.sorted => \A i \in 1..(Len(e.ns) - 1) :
                                                   LET u == e.ns[i] v == e.ns[i + 1] IN
                                                   u[1] < v[1] \/ (u[1] = v[1] /\ u[2] < v[2])))
                         /\ Same
    [] e.e = "nop" -> Same /\ Judge("setup", {})
    [] OTHER -> Same /\ Judge("crash", {0})

TNext == ok /\ l <= Len(Ev) /\ l' = l + 1 /\ tid' = tid /\ Dispatch(Ev[l])
TSpec == TInit /\ [][TNext]_vars
=============================================================================
