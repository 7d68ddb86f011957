---------------------------- MODULE TraceImport -----------------------------
(* Validation of recorded runs of the importer against Import.               *)
EXTENDS Import, Json, IOUtils
RealMap == <<0, 0, 0, 0, 0, 65535>>
Traces  == JsonDeserialize(IOEnv.TRACES)
Checked == LET s == JsonDeserialize(IOEnv.CHECKED) IN { s[i] : i \in 1..Len(s) }
VARIABLES tid, l, ok, im
vars == <<tid, l, ok, im>>
Ev == Traces[tid].ev
TInit == tid \in 1..Len(Traces) /\ l = 1 /\ ok = TRUE /\ im = ImNone
Judge(class, bad) ==
    LET b == IF class \in Checked THEN bad ELSE {} IN
    /\ ok' = (b = {})
    /\ (b # {} => PrintT(<<"REJECT", tid, l, b>>))
Bad(c) == IF c THEN {} ELSE {0}
Failed(e) == e.rc # 0 /\ e.rc # -1000
WriteOK(e) ==
    LET S == Ran(e.db.nets) IN
    /\ e.db.verifies
    /\ \A n \in S : n.a = First(n.a, n.p)
    /\ WriteSays(im, S)
    /\ Ran(e.db.ases) = Named(im) /\ Len(e.db.ases) = Cardinality(Named(im))
    /\ Ran(e.db.countries) = im.ct /\ Len(e.db.countries) = Cardinality(im.ct)
    /\ e.db.meta = e.meta
Dispatch(e) ==
  CASE e.e = "countries" -> im' = SetCountries(im, e) /\ Judge("rc", Bad(e.rc = 0))
    [] e.e = "whois"     -> im' = Whois(im, e) /\ Judge("rc", Bad(IF WhoisRc(im, e) = 0 THEN e.rc = 0 ELSE Failed(e)))
    [] e.e = "announce"  -> im' = Announce(im, e) /\ Judge("rc", Bad(IF e.fail THEN Failed(e) ELSE e.rc = 0))
    [] e.e = "age"       -> im' = Older(im, e.days) /\ Judge("rc", {})
    [] e.e = "geofeeds"  -> im' = Geofeeds(im, e) /\ Judge("rc", Bad(e.rc = 0))
    [] e.e = "feeds"     -> im' = FeedAll(im, e.feeds) /\ Judge("rc", Bad(IF FeedsRc(e) = 0 THEN e.rc = 0 ELSE Failed(e)))
    [] e.e = "overrides" -> im' = Override(im, e) /\ Judge("rc", Bad(IF e.fail THEN Failed(e) ELSE e.rc = 0))
    [] e.e = "write"     -> im' = im /\ Judge("write", Bad(e.rc = 0 /\ WriteOK(e)))
    [] OTHER             -> im' = im /\ Judge("crash", {0})
TNext == /\ ok /\ l <= Len(Ev) /\ l' = l + 1 /\ tid' = tid
         /\ Dispatch(Ev[l])
TSpec == TInit /\ [][TNext]_vars
=============================================================================
