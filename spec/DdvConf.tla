------------------------------ MODULE DdvConf ------------------------------
(* conformance of recorded delayed_delete_vector executions *)
EXTENDS Ddv, LogBase

Abs(r) == [alive |-> r.alive, c |-> r.fwd]
Repr(x) == [alive |-> x.alive, size |-> Len(x.c), fwd |-> x.c, cfwd |-> x.c, rev |-> x.c, crev |-> x.c, idx |-> x.c, cidx |-> x.c, data |-> x.c]
(* every way of reading a store shows the same sequence *)
Consistent(r) == r = Repr(Abs(r))
Verdict(x) ==
    LET S == [i \in 1..Len(x.pre) |-> Abs(x.pre[i])]
        o == Apply(S, x.op)
    IN  IF ~Same(x.res, o.res) THEN "result " \o ToString(o.res)
        ELSE IF \A i \in 1..Len(S) : x.post[i] = Repr(o.st[i]) \/ ((i - 1) \in o.lax /\ x.post[i].alive /\ Consistent(x.post[i])) THEN ""
        ELSE "state " \o ToString([i \in 1..Len(S) |-> o.st[i].c])
Init == l = 1
Next == l <= Len(Lines) /\ Report(l, Verdict(Lines[l])) /\ l' = l + 1
=============================================================================
