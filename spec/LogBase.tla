------------------------------ MODULE LogBase ------------------------------
(* A recorded execution.  The log (ndjson, named by the environment variable  *)
(* LOG) holds one line per call observed on the real code: pre-state, call,   *)
(* result, post-state.  A conformance module defines Verdict(line), "" when   *)
(* the line is a step of the specification and otherwise what the             *)
(* specification expected, and walks the log with                             *)
(*     Init == l = 1                                                          *)
(*     Next == l <= Len(Lines) /\ Report(l, Verdict(Lines[l])) /\ l' = l + 1  *)
LOCAL INSTANCE Naturals
LOCAL INSTANCE Sequences
LOCAL INSTANCE TLC
LOCAL INSTANCE Json
LOCAL INSTANCE IOUtils
VARIABLE l
Lines == ndJsonDeserialize(IOEnv.LOG)
Report(i, v) == IF v = "" THEN TRUE ELSE PrintT("MISMATCH " \o ToString(i) \o " " \o v)
Done == PrintT("CONF " \o ToString(Len(Lines)) \o " " \o ToString(TLCGet("stats").distinct))
(* comparison that never fails on values of different kinds *)
Same(a, b) == ToString(a) = ToString(b)
=============================================================================
