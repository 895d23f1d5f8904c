------------------------------ MODULE MtmConf ------------------------------
(* conformance of recorded multi_type_matrix executions *)
EXTENDS Mtm, LogBase

Abs(r) == [alive |-> r.alive, rows |-> r.rows, cols |-> r.cols, cells |-> r.cells]
Conv(m, i) == LET x == m.cells[i] IN
              <<Numeric2(x), AsInteger(x), AsBoolean(x), IF x[1] = 3 THEN 1 ELSE 0, (i - 1) % m.rows, (i - 1) \div m.rows>>
Repr(m) == [alive |-> m.alive, rows |-> m.rows, cols |-> m.cols, cells |-> m.cells,
            conv |-> [i \in DOMAIN m.cells |-> Conv(m, i)],
            numeric |-> IsNumericMatrix(m), empty |-> IsEmpty(m)]

(* a run <<type, values>>: at least one element, all of that type *)
RECURSIVE Flat(_)
Flat(runs) == IF runs = <<>> THEN <<>>
              ELSE [i \in DOMAIN Head(runs)[2] |-> <<Head(runs)[1], Head(runs)[2][i]>>] \o Flat(Tail(runs))
NonEmpty(runs) == \A i \in DOMAIN runs : Len(runs[i][2]) > 0
ResOK(got, want) ==
    IF want[1] = "walk" THEN
        /\ Len(got) = 2 /\ Same(got[1], "walk")
        /\ NonEmpty(got[2]) /\ Same(Flat(got[2]), want[2])
    ELSE IF want[1] = "walk2" THEN
        /\ Len(got) = 2 /\ Same(got[1], "walk2")
        /\ LET L == [i \in DOMAIN got[2] |-> got[2][i][1]]
               R == [i \in DOMAIN got[2] |-> got[2][i][2]]
           IN  /\ NonEmpty(L) /\ \A i \in DOMAIN L : Len(L[i][2]) = Len(R[i][2])
               /\ Same(Flat(L), want[2]) /\ Same(Flat(R), want[3])
    ELSE Same(got, want)
Verdict(x) ==
    IF x.op[1] = "end" THEN IF Same(x.res, <<"live", 0>>) THEN "" ELSE "nothing left allocated" ELSE
    LET S == [i \in 1..Len(x.pre) |-> Abs(x.pre[i])]
        o == Apply(S, x.op)
        want == [i \in 1..Len(S) |-> Repr(o.st[i])]
    IN  IF ~ResOK(x.res, o.res) THEN "result " \o ToString(o.res)
        ELSE IF \A i \in 1..Len(S) : x.post[i] = want[i] THEN ""
        ELSE "state " \o ToString(want)
Init == l = 1
Next == l <= Len(Lines) /\ Report(l, Verdict(Lines[l])) /\ l' = l + 1
=============================================================================
