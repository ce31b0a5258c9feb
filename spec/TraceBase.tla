------------------------------ MODULE TraceBase ------------------------------
(* Reading a recorded trace and reporting verdicts.  Every line of the trace *)
(* is one event; a line that the specification does not allow is reported    *)
(* with the names of the clauses it breaks, and the rest is still checked.   *)
EXTENDS Util, TLC, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)

Report(l, e, f) == IF f = {} THEN TRUE ELSE PrintT("FAIL " \o ToJson([line |-> l, scn |-> e.scn, clauses |-> SetToSeq(f)]))
=============================================================================
