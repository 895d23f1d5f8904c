------------------------------ MODULE FSTConf ------------------------------
EXTENDS FST, LogBase

(* conformance of recorded flat_segment_tree executions *)
(* abstraction: the content function denoted by a list of borders *)
WellFormed(r) == IF r.lo = r.hi THEN r.s = <<>>
                 ELSE /\ Len(r.s) >= 2
                      /\ r.s[1][1] = r.lo /\ r.s[Len(r.s)][1] = r.hi
                      /\ \A i \in 1..(Len(r.s) - 1) : r.s[i][1] < r.s[i + 1][1]
Abs(r) == IF r.lo = r.hi THEN Dead
          ELSE [lo |-> r.lo, hi |-> r.hi, d |-> r.d, tv |-> r.tv,
                f |-> [k \in r.lo..(r.hi - 1) |->
                         r.s[MaxOf({i \in 1..(Len(r.s) - 1) : r.s[i][1] <= k})][2]]]
Repr(c) == IF ~Live(c) THEN [lo |-> 0, hi |-> 0, d |-> 0, s |-> <<>>, tv |-> FALSE]
           ELSE [lo |-> c.lo, hi |-> c.hi, d |-> c.d, s |-> Canon(c), tv |-> c.tv]

Verdict(x) ==
    IF ~ \A i \in 1..Len(x.pre) : WellFormed(x.pre[i]) THEN "state is not a partition of the range"
    ELSE LET S == [i \in 1..Len(x.pre) |-> Abs(x.pre[i])]
             o == Apply(S, x.op)
             want == [i \in 1..Len(S) |-> Repr(o.st[i])]
             okslot(i) == \/ x.post[i] = want[i]
                          \/ (i - 1) \in o.lax /\ x.post[i] = [want[i] EXCEPT !.tv = FALSE]
         IN  IF ~Same(x.res, o.res) THEN "result " \o ToString(o.res)
             ELSE IF \A i \in 1..Len(S) : okslot(i) THEN ""
             ELSE "state " \o ToString(want)

Init == l = 1
Next == l <= Len(Lines) /\ Report(l, Verdict(Lines[l])) /\ l' = l + 1
=============================================================================
