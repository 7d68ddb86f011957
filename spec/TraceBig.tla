------------------------------ MODULE TraceBig ------------------------------
(* Databases too large to be written down: a few networks, and a filler: a   *)
(* /112 (or /108) with every block below it in steps of four bits (69905 or   *)
(* 1118481 networks),                                                        *)
(* whose AS numbers count on in the order of addresses and prefixes.         *)
(* Listings are runs [net, n]: n networks, each the next one of the filler's *)
(* order, with AS numbers counting on.                                       *)
EXTENDS Nets, Json, IOUtils, TLC
RealMap == <<0, 0, 0, 0, 0, 65535>>
Traces  == JsonDeserialize(IOEnv.TRACES)
Checked == LET s == JsonDeserialize(IOEnv.CHECKED) IN { s[i] : i \in 1..Len(s) }
VARIABLES tid, l, ok, nets, fill
vars == <<tid, l, ok, nets, fill>>
Ev == Traces[tid].ev
TInit == tid \in 1..Len(Traces) /\ l = 1 /\ ok = TRUE /\ nets = {} /\ fill = [n |-> 0]

Size(p) == CASE p = 128 -> 1 [] p = 124 -> 17 [] p = 120 -> 273 [] p = 116 -> 4369 [] p = 112 -> 69905 [] p = 108 -> 1118481
Step(p) == CASE p = 128 -> 1 [] p = 124 -> 16 [] p = 120 -> 256 [] p = 116 -> 4096 [] p = 112 -> 65536 [] p = 108 -> 1048576
(* the k-th block (from 0) of the tree with this prefix: <<offset, prefix>>  *)
RECURSIVE Nth(_, _, _)
Nth(k, off, p) == IF k = 0 THEN <<off, p>>
                  ELSE LET c == (k - 1) \div Size(p + 4) IN
                       Nth((k - 1) - (c * Size(p + 4)), off + (c * Step(p + 4)), p + 4)
(* the position of the host with this offset below a block with this prefix *)
HostPos(j, p) == j + (j \div 16) + (j \div 256) + (j \div 4096) + 4
                 + (IF p = 108 THEN (j \div 65536) + 1 ELSE 0)
U32(v) == <<v \div 65536, v % 65536>>
Of32(u) == (u[1] * 65536) + u[2]                    \* only numbers below 2^31 are used
Limb7 == IF fill.p = 108 THEN 16 ELSE 1             \* so many values of the 7th digit are in it
FillNet(k) == LET b == Nth(k, 0, fill.p) IN
              [a |-> SubSeq(fill.a, 1, 6) \o <<fill.a[7] + (b[1] \div 65536), b[1] % 65536>>, p |-> b[2], cc |-> fill.cc, asn |-> U32(fill.asn + k), fl |-> fill.fl]
InFill(x) == fill.n > 0 /\ SubSeq(x, 1, 6) = SubSeq(fill.a, 1, 6) /\ x[7] >= fill.a[7] /\ x[7] < fill.a[7] + Limb7
Result(x) == IF InFill(x) THEN FillNet(HostPos(((x[7] - fill.a[7]) * 65536) + x[8], fill.p)) ELSE Lpm(nets, x)

(* --------------------------------------------------------- listings *)
Filter(e) == [ fam |-> e.fam, con |-> e.con, aon |-> e.aon, fl |-> Flags(e.fl), cs |-> Ran(e.cs), as |-> Ran(e.as) ]
NoAs(flt) == [flt EXCEPT !.aon = FALSE]
AllFill(flt) == /\ (flt.fam = 0 \/ FamilyOf(fill.a) = flt.fam)
                /\ \/ ~flt.con /\ ~flt.aon /\ flt.fl = {}
                   \/ flt.con /\ fill.cc \in flt.cs
                   \/ flt.fl \intersect Flags(fill.fl) # {}
FillPos(u) == IF u[1] >= 32768 \/ Of32(u) < fill.asn \/ Of32(u) >= fill.asn + fill.n THEN -1 ELSE Of32(u) - fill.asn
FillCount(flt) == IF fill.n = 0 THEN 0
                  ELSE IF AllFill(flt) THEN fill.n
                  ELSE IF flt.aon /\ (flt.fam = 0 \/ FamilyOf(fill.a) = flt.fam)
                  THEN Cardinality({ u \in flt.as : FillPos(u) >= 0 }) ELSE 0
RunLast(r) == IF r.n = 1 THEN r.net ELSE FillNet(FillPos(r.net.asn) + r.n - 1)
RunOK(r, flt) ==
    IF r.net \in nets THEN r.n = 1 /\ MatchNet(flt, r.net)
    ELSE LET k == FillPos(r.net.asn) IN
         /\ k >= 0 /\ k + r.n <= fill.n /\ r.net = FillNet(k)
         /\ AllFill(flt) \/ \A i \in 0..(r.n - 1) : MatchNet(flt, FillNet(k + i))
RECURSIVE Total(_, _)
Total(q, i) == IF i > Len(q) THEN 0 ELSE q[i].n + Total(q, i + 1)
ListOK(q, flt) ==
    /\ \A i \in 1..Len(q) : RunOK(q[i], flt)
    /\ \A i \in 1..(Len(q) - 1) : Before(RunLast(q[i]), q[i + 1].net)
    /\ Total(q, 1) = Cardinality({ n \in nets : MatchNet(flt, n) }) + FillCount(flt)

Judge(class, bad) ==
    LET b == IF class \in Checked THEN bad ELSE {} IN
    /\ ok' = (b = {})
    /\ (b # {} => PrintT(<<"REJECT", tid, l, b>>))
Bad(c) == IF c THEN {} ELSE {0}
Dispatch(e) ==
  CASE e.e = "big"  -> /\ nets' = Ran(e.nets)
                       /\ fill' = [n |-> Size(e.fill.p), p |-> e.fill.p, a |-> e.fill.a, cc |-> e.fill.cc, asn |-> Of32(e.fill.asn), fl |-> e.fill.fl]
                       /\ Judge("setup", Bad(e.r = "ok"))
    [] e.e = "lookups" -> /\ Judge("lookup", { i \in 1..Len(e.qs) : ~(e.qs[i].r = "ok" /\ e.qs[i].net = Result(e.qs[i].x)) })
                          /\ UNCHANGED <<nets, fill>>
    [] e.e = "runs" -> /\ Judge(e.class, Bad(e.r = "ok" /\ e.more = 0 /\ ListOK(e.runs, Filter(e))))
                       /\ UNCHANGED <<nets, fill>>
    [] OTHER -> /\ UNCHANGED <<nets, fill>> /\ Judge("crash", {0})
TNext == /\ ok /\ l <= Len(Ev) /\ l' = l + 1 /\ tid' = tid
         /\ Dispatch(Ev[l])
TSpec == TInit /\ [][TNext]_vars
=============================================================================
