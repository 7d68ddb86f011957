----------------------------- MODULE MC_Import ------------------------------
(* Two views of the importer, explored exhaustively in small worlds.         *)
(*                                                                           *)
(* Write: the way the database is put together - one row for every place any *)
(* source mentions, each layer filled in from its most specific entry around *)
(* that place, on top of registrations that have been thinned out from the   *)
(* largest block down - says about every address what Says means.            *)
(*                                                                           *)
(* History: updates that succeed, fail or are left out, and time; what is    *)
(* known is never older than promised and never partial.                     *)
EXTENDS Import, FiniteSetsExt
CONSTANTS KRegs, KRows, KAnn, KFeed, KOver, Steps
NoMap == <<>>
VARIABLES im, reg, step, good
vars == <<im, reg, step, good>>

(* -------------------------------------------------------------- writing *)
(* every set of at most k blocks with a value from V each *)
Assign(k, V) == UNION { { { [b |-> b, v |-> f[b]] : b \in B } : f \in [B -> V] } : B \in UNION { kSubset(i, AllBlocks) : i \in 0..k } }
F(x, d) == [NoFlags EXCEPT !.any = x, !.drop = d]
Regs  == { { [a |-> e.b.a, p |-> e.b.p, cc |-> e.v, src |-> "R"] : e \in S } : S \in Assign(KRegs, {"", "A", "B"}) }
Rows  == { { [url |-> "u", a |-> e.b.a, p |-> e.b.p, cc |-> e.v] : e \in S } : S \in Assign(KRows, {"C"}) }
Ann   == { { [a |-> e.b.a, p |-> e.b.p, n |-> e.v, age |-> 0] : e \in S } : S \in Assign(KAnn, { <<0, 1>>, <<0, 2>> }) }
NF    == { { [a |-> e.b.a, p |-> e.b.p, src |-> "F", cc |-> e.v.cc, fl |-> e.v.fl] : e \in S } :
           S \in Assign(KFeed, { [cc |-> "D", fl |-> F(0, -1)], [cc |-> "", fl |-> F(1, -1)] }) }
NO    == { { [a |-> e.b.a, p |-> e.b.p, cc |-> e.v.cc, fl |-> e.v.fl] : e \in S } :
           S \in Assign(KOver, { [cc |-> "E", fl |-> F(-1, 1)], [cc |-> "", fl |-> F(0, 0)] }) }
AO    == { {}, { [n |-> <<0, 1>>, name |-> "", cc |-> "G", fl |-> F(-1, 0)] } }
AF    == { {}, { [n |-> <<0, 1>>, src |-> "S", fl |-> F(-1, 1)] } }
Geo   == { {}, { [a |-> Zero, p |-> 0, url |-> "u", src |-> "R"] }, { [a |-> Zero, p |-> 1, url |-> "u", src |-> "R"] } }

(* from the largest block down: what adds nothing is left out *)
RECURSIVE Thin(_, _, _)
Thin(T, S, len) ==
    IF len > AW THEN T
    ELSE LET Outer(n) == LET C == { m \in T : n # m /\ n.p > m.p /\ Within(n, m) } IN
                         IF C = {} THEN None ELSE CHOOSE m \in C : \A o \in C : o.p <= m.p
             add == { n \in S : n.p = len /\ (LET m == Outer(n) IN
                                              IF m = None THEN TRUE
                                              ELSE m.cc = "" \/ (n.cc # "" /\ n.cc # m.cc)) }
         IN Thin(T \union add, S, len + 1)
(* the most specific entry of a table around a place *)
Around(S, n) == LET C == { m \in S : Within(n, m) } IN
                IF C = {} THEN None ELSE CHOOSE m \in C : \A o \in C : o.p <= m.p
Cell(S, n) == LET m == Around(S, n) IN IF m = None THEN [cc |-> "", fl |-> NoFlags] ELSE [cc |-> m.cc, fl |-> m.fl]
Row(m, n) ==
    LET q == Around(m.ann, n)
        u == IF q = None THEN <<0, 0>> ELSE q.n
        af == { [n |-> f.n, cc |-> "", fl |-> f.fl] : f \in m.af }
        l == Over(ByAs(m.ao, u), Over(Cell(m.no, n), Over(ByAs(af, u), Over(Cell(m.nf, n),
             Over(Cell(Plain(Permitted(m)), n), Cell(Plain(Thin({}, m.regs, 0)), n))))))
    IN [a |-> n.a, p |-> n.p, cc |-> l.cc, asn |-> u, fl |-> FlagBits(l.fl)]
Table(m) == { Row(m, n) : n \in Places(m.regs) \union Places(m.rows) \union Places(m.ann) \union Places(m.nf) \union Places(m.no) }

WInit == /\ im \in { [ImNone EXCEPT !.regs = r, !.ann = a] : r \in Regs, a \in Ann }
         /\ reg = 0 /\ step = 0 /\ good = TRUE
WNext == /\ step = 0 /\ step' = 1 /\ UNCHANGED <<reg, good>>
         /\ \E g \in Geo, r \in Rows, nf \in NF, no \in NO, ao \in AO, af \in AF :
              im' = [im EXCEPT !.geo = g, !.rows = r, !.nf = nf, !.no = no, !.ao = ao, !.af = af]
WSpec == WInit /\ [][WNext]_vars
WriteIsSays == \A x \in AllAddr : Stored(Table(im), x) = Says(im, x)
PointsSuffice == WriteSays(im, Table(im))

(* -------------------------------------------------------------- history *)
B(k) == IF k = 0 THEN [a |-> Zero, p |-> 0] ELSE [a |-> Zero, p |-> 1]
SrcEv(s, fail, v) == [name |-> s, fail |-> fail,
    objs |-> << [k |-> "net", places |-> <<B(v)>>, ccs |-> <<"DE">>, geo |-> IF v = 1 THEN "u" ELSE ""],
                [k |-> "aut", n |-> <<0, 1 + v>>, org |-> "", descr |-> s, self |-> s] >>]
AnnEv(fail, v) == [fail |-> fail, routes |-> << [a |-> B(1).a, p |-> B(1).p, n |-> <<0, 1 + v>>] >>]
GeoEv(kind) == [resp |-> << [url |-> "u", kind |-> kind, rows |-> << [a |-> Zero, p |-> 1, cc |-> "FR"] >>] >>]
AnySound(n) == TRUE
AnyRouted(n) == TRUE
(* reg: days since [whois of each source, a route was seen, the geofeed was read] at best *)
Never == 1000
HInit == /\ im = SetCountries(ImNone, [lines |-> << [code |-> "DE", cont |-> "EU", name |-> "D"] >>])
         /\ reg = [route |-> Never, feed |-> Never] /\ step = 0 /\ good = TRUE
HNext ==
    /\ step < Steps /\ step' = step + 1
    /\ \/ \E s \in {"R", "S"}, fail \in BOOLEAN, v \in {0, 1} :
            /\ im' = Whois(im, [srcs |-> << SrcEv(s, fail, v) >>])
            /\ good' = (/\ fail => im' = im
                        /\ \A r \in im.regs : r.src # s => r \in im'.regs
                        /\ \A r \in im'.regs : r.src = s /\ ~fail => SamePlace(r, B(v))
                        /\ { g.src : g \in im'.geo } \subseteq { r.src : r \in im'.regs })
            /\ UNCHANGED reg
       \/ \E fail \in BOOLEAN, v \in {0, 1} :
            /\ im' = Announce(im, AnnEv(fail, v))
            /\ good' = ((fail => im' = im) /\ (~fail => \A r \in im'.ann : r.age < 14))
            /\ reg' = IF fail THEN reg ELSE [reg EXCEPT !.route = 0]
       \/ \E k \in {"ok", "gone", "fail"} :
            /\ im' = Geofeeds(im, GeoEv(k))
            /\ good' = (/\ \A r \in im'.rows : r.url \in Links(im') /\ \E f \in im'.feeds : f.url = r.url /\ f.age \in 0..13
                        /\ k = "fail" => im'.rows \subseteq im.rows)
            /\ reg' = IF \E f \in im'.feeds : f.age = 0 THEN [reg EXCEPT !.feed = 0] ELSE reg
       \/ \E d \in {1, 7, 14} :
            /\ im' = Older(im, d) /\ good' = TRUE
            /\ reg' = [route |-> IF reg.route = Never THEN Never ELSE reg.route + d, feed |-> IF reg.feed = Never THEN Never ELSE reg.feed + d]
HSpec == HInit /\ [][HNext]_vars
Good == good
(* no announcement that was not seen, none from before *)
Fresh == /\ im.ann # {} => \A r \in im.ann : r.age >= reg.route
         /\ \A f \in im.feeds : f.age = -1 \/ f.age >= reg.feed
=============================================================================
