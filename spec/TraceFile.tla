----------------------------- MODULE TraceFile -----------------------------
(***************************************************************************)
(* The recorded executions of the real code.  One JSON object per line:     *)
(* [id |-> ..., ev |-> <<event, ...>>]; a history is one run of one or more *)
(* library objects, an event one public call with its arguments and what    *)
(* was observed at its return.                                              *)
(***************************************************************************)
EXTENDS Naturals, Sequences, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.VP_TRACE)
TLen == Len(Trace)
Has(e, f) == f \in DOMAIN e
\* b, naming the violated requirement when b is false
Chk(name, b) == IF b THEN TRUE ELSE PrintT("WHY|" \o name) /\ FALSE
=============================================================================
