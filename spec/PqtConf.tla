------------------------------ MODULE PqtConf ------------------------------
(* conformance of recorded point_quad_tree executions *)
EXTENDS Pqt, LogBase

Abs(r) == [alive |-> r.alive, pts |-> r.pts]
(* exact lookup of every point of the grid and a search of the whole grid     *)
(* must both deliver the stored points                                        *)
Repr(c) == [alive |-> c.alive, pts |-> c.pts, find |-> c.pts, region |-> c.pts,
            size |-> Len(c.pts), empty |-> (c.pts = <<>>)]
Verdict(x) ==
    IF x.op[1] = "end" THEN IF Same(x.res, <<"live", 0>>) THEN "" ELSE "nothing left allocated" ELSE
    LET S == [i \in 1..Len(x.pre) |-> Abs(x.pre[i])]
        o == Apply(S, x.op)
        want == [i \in 1..Len(S) |-> Repr(o.st[i])]
    IN  IF ~Same(x.res, o.res) THEN "result " \o ToString(o.res)
        ELSE IF \A i \in 1..Len(S) : x.post[i] = want[i] THEN ""
        ELSE "state " \o ToString(want)
Init == l = 1
Next == l <= Len(Lines) /\ Report(l, Verdict(Lines[l])) /\ l' = l + 1
=============================================================================
