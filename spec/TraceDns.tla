------------------------------ MODULE TraceDns ------------------------------
(* Version discoveries as recorded: the name asked for, the reply, and what  *)
(* the caller was told.                                                      *)
EXTENDS Dns, Json, IOUtils, TLC
Traces  == JsonDeserialize(IOEnv.TRACES)
VARIABLES tid, l, ok
vars == <<tid, l, ok>>
Ev == Traces[tid].ev
TInit == tid \in 1..Len(Traces) /\ l = 1 /\ ok = TRUE

Limit == 512
Told(e, m) == CASE m.k = "any" -> TRUE
                [] m.k = "err" -> e.r = "err"
                [] m.k = "time" -> e.r = "ok" /\ e.day = m.day /\ e.sec = m.sec
Good(e) == IF e.e # "dns" THEN FALSE
           ELSE /\ e.r \in {"ok", "err"}
                /\ e.q = "_v" \o e.version \o "._db.location.ipfire.org/1/16"
                /\ IF e.silent THEN e.r = "err" ELSE Told(e, Meaning(e.b, Limit))
TNext == /\ ok /\ l <= Len(Ev) /\ l' = l + 1 /\ tid' = tid
         /\ ok' = Good(Ev[l])
         /\ (~ok' => PrintT(<<"REJECT", tid, l, {0}>>))
TSpec == TInit /\ [][TNext]_vars
=============================================================================
