----------------------------- MODULE TraceImage -----------------------------
(* Validation of what the library did with arbitrary files against Image.    *)
EXTENDS Image, Json, IOUtils

Traces  == JsonDeserialize(IOEnv.TRACES)
VARIABLES tid, l, ok
vars == <<tid, l, ok>>
Ev == Traces[tid].ev
TInit == tid \in 1..Len(Traces) /\ l = 1 /\ ok = TRUE
Judge(bad) == /\ ok' = (bad = {})
              /\ (bad # {} => PrintT(<<"REJECT", tid, l, bad>>))

(* an opened file answers every query; none goes on for ever *)
BadImage(e) == (IF OpenOK(e.h, e.opened) THEN {} ELSE {0})
               \union { k \in 1..Len(e.endless) : TRUE }
               \union (IF e.opened => e.queries > 0 THEN {} ELSE {-1})
Dispatch(e) ==
  CASE e.e = "image" -> Judge(BadImage(e))
    [] OTHER         -> Judge({0})
TNext == ok /\ l <= Len(Ev) /\ l' = l + 1 /\ tid' = tid /\ Dispatch(Ev[l])
TSpec == TInit /\ [][TNext]_vars
=============================================================================
