----------------------------- MODULE TraceBase -----------------------------
(***************************************************************************)
(* Shared by every trace specification.  A trace file (named by the        *)
(* environment variable TRACE) holds one JSON object per line:             *)
(*   [id |-> case number, in |-> what the implementation was given,        *)
(*    out |-> what it was observed to do]                                  *)
(* out.exc is present when the call raised (or did not return in time).    *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils

Cases == ndJsonDeserialize(IOEnv.TRACE)
NCases == Len(Cases)
Raised(c) == "exc" \in DOMAIN c.out
Has(r, f) == f \in DOMAIN r

\* one failed clause name per violated part
Clause(name, ok) == IF ok THEN {} ELSE {name}
Report(c, bad) == IF bad = {} THEN TRUE ELSE PrintT(<<"FAIL", c.id, bad>>)
Done(l) == PrintT(<<"DONE", l - 1>>)
=============================================================================
