---------------------------- MODULE TraceUpdate -----------------------------
(* Validation of recorded updates and downloads against the contract of      *)
(* Update, which the step machine is checked to meet.                        *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils

U == INSTANCE Update WITH Parts <- 1, case <- 0, pc <- "", here <- 0, tmp <- 0, tried <- {}, cur <- 0, req <- 0, res <- ""
Traces  == JsonDeserialize(IOEnv.TRACES)
VARIABLES tid, l, ok
vars == <<tid, l, ok>>
Ev == Traces[tid].ev
TInit == tid \in 1..Len(Traces) /\ l = 1 /\ ok = TRUE
Judge(bad) == /\ ok' = (bad = {})
              /\ (bad # {} => PrintT(<<"REJECT", tid, l, bad>>))
Bad(c) == IF c THEN {} ELSE {0}
Dispatch(e) ==
  CASE e.e = "update"   -> Judge(Bad(U!EndOK(e.case, e.req, e.res, e.now, e.left)))
    [] e.e = "killed"   -> Judge(Bad(U!KilledOK(e.case, e.req, e.now)))
    [] e.e = "fault"    -> Judge(Bad(U!FaultOK(e.case, e.req, e.res, e.now, e.left)))
    [] e.e = "download" -> Judge(Bad(U!DownloadOK(e.case, e.req, e.res, e.got, e.readable, e.left)))
    [] OTHER            -> Judge({0})
TNext == ok /\ l <= Len(Ev) /\ l' = l + 1 /\ tid' = tid /\ Dispatch(Ev[l])
TSpec == TInit /\ [][TNext]_vars
=============================================================================
