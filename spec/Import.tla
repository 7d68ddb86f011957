------------------------------- MODULE Import -------------------------------
(* The importer: what it knows from its sources, how every update changes    *)
(* that, and what the database it writes says about each address.            *)
(*                                                                           *)
(* im.ct    countries           [code, cont, name]                           *)
(* im.regs  registrations       [a, p, cc, src]       cc = "": no country    *)
(* im.auts  AS names            [n, name, src]                               *)
(* im.geo   who may say where   [a, p, url, src]      geofeed url for a block *)
(* im.feeds geofeeds            [url, age]            age in days, -1 never  *)
(* im.rows  geofeed contents    [url, a, p, cc]                              *)
(* im.ann   announcements       [a, p, n, age]                               *)
(* im.nf    network feeds       [a, p, src, cc, fl]                          *)
(* im.af    AS feeds            [n, src, fl]                                 *)
(* im.no    network overrides   [a, p, cc, fl]                               *)
(* im.ao    AS overrides        [n, name, cc, fl]                            *)
(* Flags are [px, sat, any, drop] with -1 unknown, 0 no, 1 yes.              *)
EXTENDS Nets

In(n, x)     == FamOf(n) = FamilyOf(x) /\ InNet(n, x)
Within(n, m) == FamOf(n) = FamOf(m) /\ IsSub(n, m)
Longest(S, x) == LET C == { n \in S : In(n, x) } IN
                 IF C = {} THEN None ELSE CHOOSE n \in C : \A m \in C : m.p <= n.p

NoFlags == [px |-> -1, sat |-> -1, any |-> -1, drop |-> -1]
ImNone == [ct |-> {}, regs |-> {}, auts |-> {}, geo |-> {}, feeds |-> {}, rows |-> {}, ann |-> {},
           nf |-> {}, af |-> {}, no |-> {}, ao |-> {}]

(* ---------------------------------------------------- what is written *)
Permitted(im) == { r \in im.rows : \E g \in im.geo : g.url = r.url /\ Within(r, g) }
Located(im)   == { r \in im.regs : r.cc # "" }

AsnAt(im, x) == LET n == Longest(im.ann, x) IN IF n = None THEN <<0, 0>> ELSE n.n

Pick(new, old) == IF new = "" THEN old ELSE new
PickF(new, old) == [k \in DOMAIN old |-> IF new[k] = -1 THEN old[k] ELSE new[k]]
(* the layers from the weakest to the strongest: each [cc, fl] *)
Layer(S, x) == LET n == Longest(S, x) IN IF n = None THEN [cc |-> "", fl |-> NoFlags] ELSE [cc |-> n.cc, fl |-> n.fl]
ByAs(S, u)  == LET C == { n \in S : n.n = u } IN
               IF C = {} THEN [cc |-> "", fl |-> NoFlags] ELSE LET n == CHOOSE n \in C : TRUE IN [cc |-> n.cc, fl |-> n.fl]
Plain(S) == { [a |-> n.a, p |-> n.p, cc |-> n.cc, fl |-> NoFlags] : n \in S }
Over(l, below) == [cc |-> Pick(l.cc, below.cc), fl |-> PickF(l.fl, below.fl)]

FlagBits(fl) == (IF fl.px = 1 THEN 1 ELSE 0) + (IF fl.sat = 1 THEN 2 ELSE 0)
                + (IF fl.any = 1 THEN 4 ELSE 0) + (IF fl.drop = 1 THEN 8 ELSE 0)

(* what the database has to say about x *)
Says(im, x) ==
    LET u == AsnAt(im, x)
        af == { [n |-> f.n, cc |-> "", fl |-> f.fl] : f \in im.af }
        l == Over(ByAs(im.ao, u),
             Over(Layer(im.no, x),
             Over(ByAs(af, u),
             Over(Layer(im.nf, x),
             Over(Layer(Plain(Permitted(im)), x),
                  Layer(Plain(Located(im)), x))))))
    IN <<l.cc, u, FlagBits(l.fl)>>

(* a network without any attributes says as much as none *)
Empty == <<"", <<0, 0>>, 0>>
Stored(S, x) == LET n == Lpm(S, x) IN IF n = None THEN Empty ELSE Attr(n)
Places(S) == { [a |-> n.a, p |-> n.p] : n \in S }
Points(im, S) == Critical(Places(im.regs) \union Places(im.rows) \union Places(im.ann) \union Places(im.nf)
                          \union Places(im.no) \union Places(S)) \union ({MapFirst, Succ(MapLast)} \ {<<>>})
WriteSays(im, S) == \A x \in Points(im, S) : Stored(S, x) = Says(im, x)

Named(im) == { a \in { [n |-> b.n, name |-> LET o == { c \in im.ao : c.n = b.n /\ c.name # "" } IN
                                     IF o = {} THEN b.name ELSE (CHOOSE c \in o : TRUE).name] : b \in im.auts } : a.name # "" }

(* ------------------------------------------------- what is acceptable *)
N4(w, x, y, z, len) == [a |-> MapPfx \o << (256 * w) + x, (256 * y) + z >>, p |-> len + MapLen]
N6(w, x, len) == [a |-> <<w, x, 0, 0, 0, 0, 0, 0>>, p |-> len]
Private == { N4(0,0,0,0,8), N4(10,0,0,0,8), N4(100,64,0,0,10), N4(127,0,0,0,8), N4(169,254,0,0,16), N4(172,16,0,0,12),
             N4(192,0,2,0,24), N4(192,168,0,0,16), N4(198,18,0,0,15), N4(198,51,100,0,24), N4(203,0,113,0,24),
             N4(240,0,0,0,4), N6(64512, 0, 7), N6(65152, 0, 10), N6(8193, 3512, 32) }
(* blocks that registries and feeds may talk about *)
Sound(n) == /\ n.p >= (IF FamOf(n) = 4 THEN MapLen + 7 ELSE 10)
            /\ ~\E q \in Private : Within(n, q)
(* blocks that are never announced *)
Unrouted == { N4(0,0,0,0,8), N4(127,0,0,0,8), N4(10,0,0,0,8), N4(172,16,0,0,12), N4(192,168,0,0,16), N4(192,0,0,0,24),
              N4(192,0,2,0,24), N4(198,18,0,0,15), N4(198,51,100,0,24), N4(203,0,113,0,24), N4(100,64,0,0,10),
              N4(169,254,0,0,16), N4(192,88,99,0,24), N6(8194, 0, 16), N4(224,0,0,0,4), N4(240,0,0,0,4) }
Global6 == N6(8192, 0, 3)
Routed(n) == /\ n.p # (IF FamOf(n) = 4 THEN MapLen ELSE 0)
             /\ n.p <= (IF FamOf(n) = 4 THEN MapLen + 24 ELSE 48)
             /\ FamOf(n) = 6 => IsSub(n, Global6)
             /\ ~\E q \in Unrouted : Within(n, q)
LeqU(u, v) == u[1] < v[1] \/ (u[1] = v[1] /\ u[2] <= v[2])
PublicAs(u) == \/ LeqU(<<0, 1>>, u) /\ LeqU(u, <<0, 23455>>)
               \/ LeqU(<<0, 23457>>, u) /\ LeqU(u, <<0, 64495>>)
               \/ LeqU(<<2, 0>>, u) /\ LeqU(u, <<64086, 59903>>)

(* ------------------------------------------------------------ updates *)
(* the countries are replaced as a whole; of several lines the first counts *)
SetCountries(im, e) == [im EXCEPT !.ct = { e.lines[i] : i \in { j \in 1..Len(e.lines) :
                                             \A k \in 1..(j - 1) : e.lines[k].code # e.lines[j].code } }]
Codes(im) == { c.code : c \in im.ct }

(* the country of a registration: the first of its codes that we know *)
Translate(c) == IF c = "UK" THEN "GB" ELSE c
FirstKnown(im, ccs) ==
    LET good == { i \in 1..Len(ccs) : ccs[i] \notin {"YU", "ZZ"} /\ Translate(ccs[i]) \in Codes(im) } IN
    IF good = {} THEN "" ELSE Translate(ccs[CHOOSE i \in good : \A j \in good : i <= j])

(* one source is read object by object into [im, au, og]: AS numbers with    *)
(* their organisations, and the names of organisations                      *)
PutReg(im, src, n, cc) ==
    [im EXCEPT !.regs = { r \in @ : ~(SamePlace(r, n) /\ r.src = src) } \union { [a |-> n.a, p |-> n.p, cc |-> cc, src |-> src] }]
PutGeo(im, src, n, url) ==
    [im EXCEPT !.geo = { g \in @ : ~(SamePlace(g, n) /\ g.url = url) } \union { [a |-> n.a, p |-> n.p, url |-> url, src |-> src] }]
RECURSIVE PutBlocks(_, _, _, _, _)
PutBlocks(im, src, q, cc, url) ==
    IF q = <<>> THEN im
    ELSE LET n == Head(q)
             i1 == IF Sound(n) THEN PutReg(im, src, n, cc) ELSE im
             i2 == IF Sound(n) /\ url # "" THEN PutGeo(i1, src, n, url) ELSE i1
         IN PutBlocks(i2, src, Tail(q), cc, url)

RECURSIVE PutAses(_, _, _, _)
PutAses(im, src, q, name) ==
    IF q = <<>> THEN im
    ELSE PutAses(IF PublicAs(Head(q)) /\ ~\E b \in im.auts : b.n = Head(q)
                 THEN [im EXCEPT !.auts = @ \union { [n |-> Head(q), name |-> name, src |-> src] }] ELSE im,
                 src, Tail(q), name)

Object(s, src, o) ==
    CASE o.k = "net" -> [s EXCEPT !.im = PutBlocks(@, src, o.places, FirstKnown(@, o.ccs), o.geo)]
      [] o.k = "aut" -> \* without an organisation its description names it
           LET h == IF o.org # "" THEN o.org ELSE o.self IN
           IF o.org = "" /\ o.descr = "" THEN s
           ELSE [s EXCEPT !.au = { b \in @ : b.n # o.n } \union { [n |-> o.n, org |-> h] },
                          !.og = IF o.org # "" \/ \E g \in @ : g.h = h THEN @ ELSE @ \union { [h |-> h, name |-> o.descr] }]
      [] o.k = "org" -> IF o.name = "" THEN s
                        ELSE [s EXCEPT !.og = { g \in @ : g.h # o.h } \union { [h |-> o.h, name |-> o.name] }]
      [] o.k = "ext" -> IF o.cc \in Codes(s.im) THEN [s EXCEPT !.im = PutBlocks(@, src, o.places, o.cc, "")] ELSE s
      [] o.k = "asn" -> [s EXCEPT !.im = PutAses(@, src, o.ns, o.name)]
RECURSIVE Objects(_, _, _)
Objects(s, src, q) == IF q = <<>> THEN s ELSE Objects(Object(s, src, Head(q)), src, Tail(q))

Forget(im, src) == [im EXCEPT !.regs = { r \in @ : r.src # src }, !.auts = { r \in @ : r.src # src },
                              !.geo = { r \in @ : r.src # src }]
(* a source is taken as a whole or, if anything about it fails, not at all *)
Source(im, f) ==
    IF f.fail THEN im
    ELSE LET s == Objects([im |-> Forget(im, f.name), au |-> {}, og |-> {}], f.name, f.objs)
             new == { [n |-> b.n, name |-> (CHOOSE g \in s.og : g.h = b.org).name, src |-> f.name] :
                      b \in { c \in s.au : \E g \in s.og : g.h = c.org } }
         IN [s.im EXCEPT !.auts =
               { b \in @ : ~\E c \in new : c.n = b.n }
               \union { [c EXCEPT !.src = LET o == { b \in s.im.auts : b.n = c.n } IN
                          IF o = {} THEN @ ELSE (CHOOSE b \in o : TRUE).src] : c \in new }]
RECURSIVE Sources(_, _)
Sources(im, q) == IF q = <<>> THEN im ELSE Sources(Source(im, Head(q)), Tail(q))
Whois(im, e)   == IF im.ct = {} THEN im ELSE Sources(im, e.srcs)
WhoisRc(im, e) == IF im.ct = {} \/ \E i \in 1..Len(e.srcs) : e.srcs[i].fail THEN 1 ELSE 0

(* announcements: what is seen is refreshed, what has not been seen for two  *)
(* weeks goes                                                                *)
RECURSIVE Routes(_, _)
Routes(S, q) == IF q = <<>> THEN S
                ELSE Routes({ r \in S : ~SamePlace(r, Head(q)) }
                            \union { [a |-> Head(q).a, p |-> Head(q).p, n |-> Head(q).n, age |-> 0] }, Tail(q))
Announce(im, e) == IF e.fail THEN im
                   ELSE [im EXCEPT !.ann = { r \in Routes(@, e.routes) : Routed(r) /\ PublicAs(r.n) /\ r.age < 14 }]

Older(im, d) == [im EXCEPT !.ann = { [r EXCEPT !.age = @ + d] : r \in @ },
                           !.feeds = { IF f.age = -1 THEN f ELSE [f EXCEPT !.age = @ + d] : f \in @ }]

(* geofeeds: linked ones are fetched once a week; a feed that is gone loses  *)
(* its contents at once, one that fails after two weeks                      *)
Links(im) == { g.url : g \in im.geo }
SyncFeeds(im) ==
    [im EXCEPT !.feeds = { f \in @ : f.url \in Links(im) }
                         \union { [url |-> u, age |-> -1] : u \in Links(im) \ { f.url : f \in @ } },
               !.rows = { r \in @ : r.url \in Links(im) }]
Due(f) == f.age = -1 \/ f.age >= 7
Fetch(im, f, e) ==
    LET rs == { i \in 1..Len(e.resp) : e.resp[i].url = f.url }
        r  == e.resp[CHOOSE i \in rs : TRUE]
    IN IF rs = {} \/ r.kind = "fail" THEN im
       ELSE IF r.kind = "gone" THEN [im EXCEPT !.rows = { x \in @ : x.url # f.url }]
       ELSE [im EXCEPT !.rows = { x \in @ : x.url # f.url }
                                \union { [url |-> f.url, a |-> r.rows[i].a, p |-> r.rows[i].p, cc |-> r.rows[i].cc] : i \in 1..Len(r.rows) },
                       !.feeds = { x \in @ : x.url # f.url } \union { [url |-> f.url, age |-> 0] }]
RECURSIVE FetchAll(_, _, _)
FetchAll(im, S, e) == IF S = {} THEN im ELSE LET f == CHOOSE f \in S : TRUE IN FetchAll(Fetch(im, f, e), S \ {f}, e)
Geofeeds(im, e) ==
    LET i1 == SyncFeeds(im)
        i2 == FetchAll(i1, { f \in i1.feeds : Due(f) }, e)
    IN [i2 EXCEPT !.rows = { r \in @ : \E f \in i2.feeds : f.url = r.url /\ f.age # -1 /\ f.age < 14 }]

(* other feeds: each is replaced as a whole or kept *)
Feed(im, f) ==
    IF f.fail THEN im
    ELSE [im EXCEPT !.nf = { r \in @ : r.src # f.name }
                     \union { [a |-> f.rows[i].a, p |-> f.rows[i].p, src |-> f.name, cc |-> f.rows[i].cc, fl |-> f.rows[i].fl] :
                              i \in { j \in 1..Len(f.rows) : /\ Sound(f.rows[j])
                                                             /\ \A k \in 1..(j - 1) : ~SamePlace(f.rows[k], f.rows[j]) } },
                    !.af = { r \in @ : r.src # f.name }
                     \union { [n |-> f.ases[i], src |-> f.name, fl |-> [NoFlags EXCEPT !.drop = 1]] :
                              i \in { j \in 1..Len(f.ases) : PublicAs(f.ases[j]) } }]
RECURSIVE FeedAll(_, _)
FeedAll(im, q) == IF q = <<>> THEN im ELSE FeedAll(Feed(im, Head(q)), Tail(q))
FeedsRc(e) == IF \E i \in 1..Len(e.feeds) : e.feeds[i].fail THEN 1 ELSE 0

(* overrides: all of them at once; of several entries the first counts *)
Firsts(q, Same(_, _)) == { q[i] : i \in { j \in 1..Len(q) : \A k \in 1..(j - 1) : ~Same(q[k], q[j]) } }
SameAs(m, n) == m.n = n.n
RECURSIVE GeoAll(_, _)
GeoAll(im, q) == IF q = <<>> THEN im
                 ELSE GeoAll(PutGeo(im, "overrides", Head(q), Head(q).url), Tail(q))
Override(im, e) ==
    IF e.fail THEN im
    ELSE GeoAll([im EXCEPT !.no = { [a |-> n.a, p |-> n.p, cc |-> n.cc, fl |-> n.fl] :
                                     n \in { m \in Firsts(e.nets, SamePlace) : m.p # (IF FamOf(m) = 4 THEN MapLen ELSE 0) } },
                           !.ao = Firsts(e.auts, SameAs),
                           !.geo = { g \in @ : g.src # "overrides" }], e.geos)
=============================================================================
