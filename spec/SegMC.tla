-------------------------------- MODULE SegMC --------------------------------
(* Exhaustive exploration of the segment_tree specification over small        *)
(* constants, with laws asserted on every transition.                         *)
EXTENDS Seg, Json

CONSTANTS HI, NVALS, CAP, NSLOTS, CALLS
VARIABLES S, hist
vars == <<S, hist>>
View == S

Vals == 0..(NVALS - 1)
Slots == 0..(NSLOTS - 1)
LiveSlots == {k \in Slots : S[k + 1].alive}
AllSegs == {<<a, b, v>> : a \in 0..HI, b \in 0..HI, v \in Vals}

Init == S = [i \in 1..NSLOTS |-> Dead] /\ hist = <<>>

OpsOf(n, k) ==
    CASE n = "ins" -> IF Len(S[k + 1].segs) < CAP THEN {<<n, k, x[1], x[2], x[3]>> : x \in AllSegs} ELSE {}
      [] n \in {"build", "clear"} -> {<<n, k>>}
      [] n = "search" -> {<<n, k, p>> : p \in -1..HI}
      [] n = "erit" -> {<<n, k, p, i>> : p \in 0..(HI - 1), i \in 0..(CAP - 1)}
      [] n = "erif" -> {<<n, k, q, x>> : q \in 0..4, x \in 0..HI}
      [] n = "copy" -> {<<n, k, j>> : j \in Slots}
      [] n \in {"asg", "masg", "swap", "eq"} -> {<<n, k, j>> : j \in LiveSlots}
      [] n \in {"move", "moveclr"} -> {<<n, k, j>> : j \in Slots \ {k}}
      [] OTHER -> {}
Ops == IF LiveSlots = {} THEN {<<"new", 0>>} ELSE UNION {OpsOf(n, k) : n \in CALLS, k \in LiveSlots}

SortedBag(s) == \A i \in 1..(Len(s) - 1) : Leq(s[i], s[i + 1])
Inv == \A i \in 1..NSLOTS :
          /\ SortedBag(S[i].segs)
          /\ \A j \in 1..Len(S[i].segs) : S[i].segs[j][1] < S[i].segs[j][2]
          /\ LET b == BoundaryKeys(S[i].segs) IN
             /\ \A j \in 1..(Len(b) - 1) : b[j] < b[j + 1]
             /\ \A q \in 0..HI : (\E j \in 1..Len(b) : b[j] = q) <=>
                                 (\E j \in 1..Len(S[i].segs) : q \in {S[i].segs[j][1], S[i].segs[j][2]})

(* occurrences of x after the call, explained per call *)
ExpectedCount(op, o, x) ==
    LET n == op[1] c == S[op[2] + 1] old == Count(c.segs, x) IN
    CASE n = "ins" -> old + (IF x = <<op[3], op[4], op[5]>> /\ x[1] < x[2] THEN 1 ELSE 0)
      [] n = "erit" -> old - (IF o.res[2] /\ o.res[3] = x THEN 1 ELSE 0)
      [] n = "erif" -> IF Matches(op[3], op[4], x) THEN 0 ELSE old
      [] n \in {"clear", "moveclr"} -> 0
      [] OTHER -> old
LawOK(op, o) ==
    /\ op[1] \in {"ins", "erit", "erif", "clear", "build", "search", "moveclr"} =>
          \A x \in AllSegs : Count(o.st[op[2] + 1].segs, x) = ExpectedCount(op, o, x)
    /\ op[1] = "search" =>
          \A x \in AllSegs : Count(o.res[4], x) =
              IF S[op[2] + 1].valid /\ x[1] <= op[3] /\ op[3] < x[2] THEN Count(S[op[2] + 1].segs, x) ELSE 0
    /\ op[1] = "eq" => o.res[2] = (/\ \A x \in AllSegs : Count(S[op[2] + 1].segs, x) = Count(S[op[3] + 1].segs, x)
                                      /\ S[op[2] + 1].valid = S[op[3] + 1].valid)
    /\ \A k \in Slots : o.st[k + 1] # S[k + 1] => \E i \in 2..Len(op) : i <= 3 /\ op[i] = k
    /\ \A k \in Slots : o.st[k + 1].valid => \/ op[1] = "build" /\ op[2] = k
                                             \/ \E j \in Slots : S[j + 1].valid

Next == \E op \in Ops : \E hint \in IF op[1] = "erit" THEN {<<0, 0, x>> : x \in AllSegs} ELSE {<<>>} :
    LET o == Apply(S, op, hint) IN
    /\ Assert(LawOK(op, o), <<"law broken", hist, op, o>>)
    /\ PrintT("T " \o ToJson(<<hist, op>>))
    /\ S' = o.st
    /\ hist' = Append(hist, op)
=============================================================================
