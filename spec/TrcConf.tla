------------------------------ MODULE TrcConf ------------------------------
(* conformance of recorded executions with call tracing *)
EXTENDS Trc, LogBase

Verdict(x) ==
    LET op == SubSeq(x.op, 1, Len(x.op) - 1)
        o == Apply(x.pre, op, x.op[Len(x.op)] # "untraced")
    IN  IF x.op[1] = "end" THEN (IF Same(x.res, <<"live", 0>>) THEN "" ELSE "result <<live, 0>>")
        ELSE IF ~Same(x.res, o.res) THEN "result " \o ToString(o.res)
        ELSE IF x.post = o.st THEN ""
        ELSE "state " \o ToString([i \in 1..Len(o.st) |-> o.st[i].c])
Init == l = 1
Next == l <= Len(Lines) /\ Report(l, Verdict(Lines[l])) /\ l' = l + 1
=============================================================================
