------------------------------ MODULE TraceDB -------------------------------
(* Validation of recorded executions against LocDB.  A file holds many       *)
(* traces; every initial state starts one.  An event whose result the        *)
(* specification does not allow is reported and ends its trace.  Checked is  *)
(* the set of event classes that are judged; the results of the other        *)
(* classes are adopted as they are (they only set the stage).                *)
EXTENDS Cli, Format

RealMap == <<0, 0, 0, 0, 0, 65535>>

Traces  == JsonDeserialize(IOEnv.TRACES)
Checked == LET s == JsonDeserialize(IOEnv.CHECKED) IN { s[i] : i \in 1..Len(s) }

VARIABLES tid, l, ok
vars == <<wr, fs, db, en, tid, l, ok>>

Ev == Traces[tid].ev

TInit == /\ DBInit
         /\ tid \in 1..Len(Traces)
         /\ l = 1
         /\ ok = TRUE

(* bad: the set of positions (or {0}) where the event contradicts the spec *)
Judge(class, bad) ==
    LET b == IF class \in Checked THEN bad ELSE {} IN
    /\ ok' = (b = {})
    /\ (b # {} => PrintT(<<"REJECT", tid, l, b>>))
Bad(cond) == IF cond THEN {} ELSE {0}

Digit(d) == d \in 0..DMax
WellNet(n) == /\ DOMAIN n = {"a", "p", "cc", "asn", "fl"}
              /\ Len(n.a) = ND
              /\ n.p \in 0..AW
              /\ n.a = First(n.a, n.p)
WellNets(q) == \A i \in 1..Len(q) : WellNet(q[i])

Filter(e) == [ fam |-> e.fam, con |-> e.con, aon |-> e.aon, fl |-> Flags(e.fl),
               cs |-> Ran(e.cs), as |-> Ran(e.as) ]

(* a network walk yields what the filters ask for *)
WalkOK(S, e, q) == IF e.flat THEN FlatOK(q, S, Filter(e)) ELSE SearchOK(q, S, Filter(e))

(* -------------------------------------------------------- AS search *)
Lower(c) == IF c >= 65 /\ c <= 90 THEN c + 32 ELSE c
Occurs(s, t) == \* does s occur in t, ignoring case (both are sequences of character codes)
    \E k \in 0..(Len(t) - Len(s)) : \A i \in 1..Len(s) : Lower(s[i]) = Lower(t[k + i])
AsSearch(A, s) == { a \in A : Occurs(s, a.chars) }

Plain(a) == [n |-> a.n, name |-> a.name]

(* each element of qs is the listing of one round *)
AsListOK(A, q) == AscAs(q) /\ { Plain(q[i]) : i \in 1..Len(q) } = { Plain(a) : a \in A }
CtListOK(C, q) == /\ \A i \in 1..(Len(q) - 1) : q[i].k < q[i + 1].k
                  /\ Ran(q) = C

(* what is printed for several objects: the sets in the order of the objects *)
Chosen(e, i) == PlacesOf({ n \in db[e.d].nets : MatchNet(Filter(e.sets[i]), n) })
RECURSIVE SetStart(_, _)
SetStart(e, i) == IF i = 1 THEN 0 ELSE SetStart(e, i - 1) + Cardinality(Chosen(e, i - 1))
SetsOK(e) ==
    LET k == Len(e.sets) IN
    /\ Len(e.f.q) = SetStart(e, k) + Cardinality(Chosen(e, k))
    /\ \A i \in 1..k :
         LET b == SetStart(e, i) part == SubSeq(e.f.q, b + 1, b + Cardinality(Chosen(e, i))) IN
         /\ SortedNets(part)
         /\ Ran(Places(part)) = Chosen(e, i)
         /\ (HasTag(e.fmt) => /\ Len(e.f.heads) = k
                              /\ e.f.heads[i].at = b
                              /\ e.f.heads[i].tag = e.sets[i].name \o "v" \o (IF e.fam = 0 THEN "?" ELSE FamText(e.fam))
                              /\ (e.fmt = "ipset" => e.f.heads[i].hdrfam = e.fam))

(* ------------------------------------------------------------ file format *)
(* the file of what has been written, as anybody else would read it; from,   *)
(* to: when it was written; sigs: the keys an independent verifier accepts   *)
Leq64(x, y) == \A i \in 1..4 : x[i] > y[i] => \E j \in 1..(i - 1) : x[j] < y[j]
FormOK(e) ==
    LET c == fs[e.path] IN
    /\ Written(e.f)
    /\ LET D == Decode(e.f) IN
       /\ AttrEq(c.orig, D.nets)
       /\ D.ases = c.ases /\ D.cts = c.cts
       /\ D.vendor = c.vendor /\ D.description = c.description /\ D.license = c.license
       /\ Leq64(e.from, D.created) /\ Leq64(D.created, e.to)
    /\ Ran(e.sigs) = c.keys
    /\ Cardinality({ o \in {68, 70} : U16(e.f, o) > 0 }) = Cardinality(c.keys)
FromBytes(f, keys) ==
    LET D == Decode(f) IN
    [Blank EXCEPT !.nets = D.nets, !.orig = D.nets, !.ases = D.ases, !.cts = D.cts, !.vendor = D.vendor,
                  !.description = D.description, !.license = D.license, !.created = D.created, !.keys = keys]

Dispatch(e) ==
  CASE e.e = "w.new"   -> /\ WNew(e.w, IF "keys" \in DOMAIN e THEN Ran(e.keys) ELSE {})
                          /\ Judge("setup", Bad(e.r = "ok"))
    [] e.e = "w.meta"  -> WMeta(e.w, e.what, e.s) /\ Judge("meta", Bad(e.r = "ok"))
    [] e.e = "w.net"   -> /\ Judge("add", Bad(e.r = WNetResult(e.w, e.net, e.valid)))
                          /\ WNet(e.w, e.net, e.r)
    [] e.e = "w.nets"  -> \* a group of additions
                          /\ Judge("add", { i \in 1..Len(e.qs) :
                               e.qs[i].r # (IF \E m \in wr[e.w].nets : SamePlace(m, e.qs[i].net) THEN "busy"
                                            ELSE IF \E j \in 1..(i - 1) : SamePlace(e.qs[j].net, e.qs[i].net)
                                            THEN "busy" ELSE "ok") })
                          /\ wr' = [wr EXCEPT ![e.w].nets = @ \union
                               { e.qs[i].net : i \in { k \in 1..Len(e.qs) : e.qs[k].r = "ok" } }]
                          /\ UNCHANGED <<fs, db, en>>
    [] e.e = "w.change" -> \* attributes of a network somebody still holds
                          /\ wr' = [wr EXCEPT ![e.w].nets = (@ \ {e.net}) \union {e.to}]
                          /\ UNCHANGED <<fs, db, en>>
                          /\ Judge("setup", Bad(e.r = "ok" /\ e.net \in wr[e.w].nets))
    [] e.e = "w.as"    -> WAs(e.w, e.as) /\ Judge("as", Bad(e.r = "ok"))
    [] e.e = "w.ases"  -> \* a group of additions of distinct numbers
                          /\ wr' = [wr EXCEPT ![e.w].ases =
                               @ \union { a \in Ran(e.as) : ~\E b \in wr[e.w].ases : b.n = a.n }]
                          /\ UNCHANGED <<fs, db, en>>
                          /\ Judge("as", Bad(e.r = "ok"))
    [] e.e = "w.country" -> IF e.valid
                            THEN WCountry(e.w, e.country) /\ Judge("country", Bad(e.r = "ok"))
                            ELSE UNCHANGED dbvars /\ Judge("country", Bad(e.r = "err"))
    [] e.e = "w.write" -> \* stored: the networks found in the file by an independent reader
                          /\ Judge("write", Bad(e.r = "ok" /\ WellNets(e.stored)
                                                 /\ WriteOK(e.w, Ran(e.stored))))
                          /\ WWrite(e.w, e.path, Ran(e.stored))
    [] e.e = "w.medium" -> \* writing to a medium that may fail: sum and ref say what is on it and
                           \* what a successful write leaves; verifies: by all keys that sign it
                          /\ Judge("medium", Bad(/\ (e.r = "ok" => (e.sum = e.ref /\ e.verifies))
                                                 /\ (~e.failed => e.r = "ok")))
                          /\ UNCHANGED dbvars
    [] e.e = "f.load"  -> \* a file from elsewhere: its content as an independent reader sees it
                          /\ fs' = Upd(fs, e.path, [Blank EXCEPT !.nets = Ran(e.stored)])
                          /\ UNCHANGED <<wr, db, en>>
                          /\ Judge("setup", {})
    [] e.e = "f.file"  -> \* a file made elsewhere
                          /\ Assert(Legal(e.f), "the prepared file is not in order")
                          /\ fs' = Upd(fs, e.path, FromBytes(e.f, Ran(e.keys)))
                          /\ UNCHANGED <<wr, db, en>>
                          /\ Judge("setup", {})
    [] e.e = "f.form"  -> Judge("format", Bad(FormOK(e))) /\ UNCHANGED dbvars
    [] e.e = "d.created" -> Judge("created", Bad(e.t = db[e.d].created)) /\ UNCHANGED dbvars
    [] e.e = "f.rename" -> FRename(e.p, e.q) /\ Judge("setup", {})
    [] e.e = "f.unlink" -> FUnlink(e.p) /\ Judge("setup", {})
    [] e.e = "d.open"  -> DOpen(e.d, e.path) /\ Judge("open", Bad(e.r = "ok"))
    [] e.e = "unref"   -> \* dropping a handle: others that depend on it stay usable
                          /\ IF e.t = "d" THEN DClose(e.i)
                             ELSE IF e.t = "e" THEN EDrop(e.i) ELSE UNCHANGED dbvars
                          /\ Judge("setup", {})
    [] e.e = "nop"     -> UNCHANGED dbvars /\ Judge("setup", {})
    [] e.e = "d.lookups" ->
         /\ Judge("lookup", { i \in 1..Len(e.qs) :
              LET q == e.qs[i] IN
              IF q.valid THEN ~(q.r = "ok" /\ q.net = LookupResult(e.d, q.x))
              ELSE ~(q.r = "err" /\ q.net = None) })
         /\ UNCHANGED dbvars
    [] e.e = "d.attrs" -> \* lookups judged by their attributes only
         /\ Judge("attrs", { i \in 1..Len(e.qs) :
              LET q == e.qs[i] w == Lpm(db[e.d].orig, q.x) IN
              IF q.valid THEN ~(q.r = "ok" /\ (IF q.net = None THEN NoAttr ELSE Attr(q.net)) =
                                              (IF w = None THEN NoAttr ELSE Attr(w)))
              ELSE ~(q.r = "err" /\ q.net = None) })
         /\ UNCHANGED dbvars
    [] e.e = "d.as"    -> /\ LET w == AsResult(e.d, e.n) IN
                             Judge("as", Bad(IF w = None THEN e.r = "none" /\ e.as = None
                                             ELSE e.r = "ok" /\ e.as = Plain(w)))
                          /\ UNCHANGED dbvars
    [] e.e = "d.asq"   -> /\ Judge("as", { i \in 1..Len(e.qs) :
                               LET q == e.qs[i] w == AsResult(e.d, q.n) IN
                               ~(IF w = None THEN q.r = "none" /\ q.as = None
                                 ELSE q.r = "ok" /\ q.as = Plain(w)) })
                          /\ UNCHANGED dbvars
    [] e.e = "d.country" -> /\ LET w == CountryResult(e.d, e.code) IN
                               Judge("country", Bad(IF ~e.valid THEN e.r = "err" /\ e.country = None
                                                    ELSE e.r = "ok" /\ e.country = w))
                            /\ UNCHANGED dbvars
    [] e.e = "d.meta"  -> /\ Judge("meta", Bad(/\ e.vendor = db[e.d].vendor
                                               /\ e.description = db[e.d].description
                                               /\ e.license = db[e.d].license
                                               \* -1: this interface does not tell
                                               /\ e.count \in {-1, Cardinality(db[e.d].ases)}
                                               /\ e.fresh))
                          /\ UNCHANGED dbvars
    [] e.e = "d.nets"  -> /\ Judge(e.class, Bad(/\ e.r = "ok" /\ e.more = 0 /\ WellNets(e.nets)
                                                /\ WalkOK(db[e.d].nets, e, e.nets)))
                          /\ UNCHANGED dbvars
    [] e.e = "d.bogons" -> /\ Judge("bogons", Bad(/\ e.r = "ok" /\ e.more = 0
                                                  /\ WellNets(e.q4) /\ WellNets(e.q6)
                                                  /\ BogonsOK(e.q4, e.q6, db[e.d].nets, e.fam)))
                           /\ UNCHANGED dbvars
    [] e.e = "d.ases"  -> /\ Judge(e.class, Bad(e.r = "ok" /\ \A i \in 1..Len(e.ases) :
                               AsListOK(IF e.search THEN AsSearch(db[e.d].ases, e.s) ELSE db[e.d].ases,
                                        e.ases[i])))
                          /\ UNCHANGED dbvars
    [] e.e = "d.countries" -> /\ Judge("country", Bad(e.r = "ok" /\ \A i \in 1..Len(e.countries) :
                                   CtListOK(db[e.d].cts, e.countries[i])))
                              /\ UNCHANGED dbvars
    [] e.e = "d.codes" -> \* the codes of all countries
                          /\ Judge("country", Bad(/\ e.r = "ok"
                               /\ (\A i \in 1..(Len(e.codes) - 1) : e.codes[i].k < e.codes[i + 1].k)
                               /\ { e.codes[i].code : i \in 1..Len(e.codes) } = { c.code : c \in db[e.d].cts }))
                          /\ UNCHANGED dbvars
    [] e.e = "d.verify" -> /\ Judge("verify", Bad(e.r = (IF e.key \in db[e.d].keys THEN "ok" ELSE "err")))
                           /\ UNCHANGED dbvars
    [] e.e = "refused" -> \* calls with arguments that are not acceptable
                          /\ Judge("refused", { i \in 1..Len(e.qs) : e.qs[i] # "err" }) /\ UNCHANGED dbvars
    [] e.e = "calls"   -> \* calls that may succeed or fail, in an orderly way
                          /\ Judge("refused", { i \in 1..Len(e.qs) : e.qs[i] \notin {"ok", "err"} }) /\ UNCHANGED dbvars
    [] e.e = "e.new"   -> \* all: what a walk alone over the same database returned (judged elsewhere)
                          ENew(e.i, e.kind, e.all) /\ Judge("setup", {})
    [] e.e = "e.next"  -> /\ Judge("walk", Bad(e.r = "ok" /\ e.item = ENextResult(e.i)))
                          /\ ENext(e.i)
    [] e.e = "mem"     -> \* at the very end nothing is left
                          /\ Judge("mem", Bad(e.live = 0 /\ e.fd = e.fd0))
                          /\ UNCHANGED dbvars
    [] e.e = "x.export" -> /\ Judge("export", Bad(/\ e.code = 0
                                  /\ (\A i \in 1..Len(e.files) : WellNets(e.files[i].q))
                                  /\ ExportOK(e.d, e.fmt, Ran(e.fams), Ran(e.given), e.files)))
                           /\ UNCHANGED dbvars
    [] e.e = "x.lookup" -> /\ Judge("cli", Bad(LookupsOK(e.d, e.qs, e.shown, e.code)))
                           /\ UNCHANGED dbvars
    [] e.e = "x.nets"   -> \* networks printed in a format
                           /\ Judge("cli", Bad(/\ e.code = 0 /\ e.f.ok /\ WellNets(e.f.q) /\ e.f.asc
                                  /\ (HasTag(e.fmt) => e.f.tag = e.name \o "v" \o
                                            (IF e.fam = 0 THEN "?" ELSE FamText(e.fam)))
                                  /\ (e.fmt = "ipset" => e.f.hdrfam = e.fam)
                                  /\ SortedNets(e.f.q)
                                  /\ Ran(Places(e.f.q)) = PlacesOf({ n \in db[e.d].nets : MatchNet(Filter(e), n) })))
                           /\ UNCHANGED dbvars
    [] e.e = "x.sets"   -> \* several sets, one after another
                           /\ Judge("cli", Bad(e.code = 0 /\ e.f.ok /\ WellNets(e.f.q) /\ SetsOK(e)))
                           /\ UNCHANGED dbvars
    [] e.e = "x.getas"  -> /\ Judge("cli", Bad(
                                  /\ \A i \in 1..Len(e.qs) :
                                       LET q == e.qs[i] w == AsResult(e.d, q.n) IN
                                       IF ~q.valid \/ w = None THEN q.name = <<>> ELSE q.name = <<w.name>>
                                  /\ e.code = (IF \E i \in 1..Len(e.qs) : ~e.qs[i].valid \/ AsResult(e.d, e.qs[i].n) = None
                                               THEN 1 ELSE 0)
                                  /\ e.extra = 0))
                           /\ UNCHANGED dbvars
    [] e.e = "x.code"   -> \* commands that have to end in a given way
                           /\ Judge("cli", Bad(e.code \in Ran(e.want))) /\ UNCHANGED dbvars
    [] e.e = "x.verify" -> /\ Judge("cli", Bad(e.code = (IF e.key \in db[e.d].keys THEN 0 ELSE 1)))
                           /\ UNCHANGED dbvars
    [] e.e = "released" -> \* nothing is held any more: the file is neither mapped nor open
                          /\ Judge("released", Bad(e.maps = 0 /\ e.fds = 0)) /\ UNCHANGED dbvars
    [] e.e = "same"    -> /\ Judge("same", Bad(e.x = e.y)) /\ UNCHANGED dbvars
    [] OTHER           -> Judge("crash", {0}) /\ UNCHANGED dbvars

TNext == /\ ok
         /\ l <= Len(Ev)
         /\ l' = l + 1
         /\ tid' = tid
         /\ Dispatch(Ev[l])

TSpec == TInit /\ [][TNext]_vars
=============================================================================
