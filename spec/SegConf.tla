------------------------------ MODULE SegConf ------------------------------
(* conformance of recorded segment_tree executions *)
EXTENDS Seg, LogBase

Abs(r) == [alive |-> r.alive, segs |-> r.segs, valid |-> r.valid]
Repr(c) == [alive |-> c.alive, segs |-> c.segs, size |-> Len(c.segs), empty |-> (c.segs = <<>>),
            keys |-> BoundaryKeys(c.segs), valid |-> c.valid]
Verdict(x) ==
    LET S == [i \in 1..Len(x.pre) |-> Abs(x.pre[i])]
        o == Apply(S, x.op, x.res)
        want == [i \in 1..Len(S) |-> Repr(o.st[i])]
        okslot(i) == \/ x.post[i] = want[i]
                     \/ (i - 1) \in o.lax /\ want[i].segs = <<>> /\ x.post[i] = [want[i] EXCEPT !.valid = ~@]
    IN  IF ~Same(x.res, o.res) THEN "result " \o ToString(o.res)
        ELSE IF \A i \in 1..Len(S) : okslot(i) THEN ""
        ELSE "state " \o ToString(want)
Init == l = 1
Next == l <= Len(Lines) /\ Report(l, Verdict(Lines[l])) /\ l' = l + 1
=============================================================================
