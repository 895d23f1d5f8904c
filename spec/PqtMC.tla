-------------------------------- MODULE PqtMC --------------------------------
(* Exhaustive exploration of the point_quad_tree specification.  The shape of *)
(* the real tree depends on the order of insertion, so that order is part of  *)
(* the explored state.                                                        *)
EXTENDS Pqt, Json

CONSTANTS HI, NVALS, CAP, NSLOTS, CALLS
VARIABLES S, order, hist
vars == <<S, order, hist>>
View == <<S, order>>

Slots == 0..(NSLOTS - 1)
LiveSlots == {k \in Slots : S[k + 1].alive}
Grid == (0..HI) \X (0..HI)

Init == S = [i \in 1..NSLOTS |-> Dead] /\ order = [i \in 1..NSLOTS |-> <<>>] /\ hist = <<>>

OpsOf(n, k) ==
    CASE n = "ins" -> {<<n, k, g[1], g[2], v>> : g \in {h \in Grid : Len(S[k + 1].pts) < CAP \/ Get(S[k + 1].pts, h) # <<>>}, v \in 0..(NVALS - 1)}
      [] n \in {"rem", "find"} -> {<<n, k, g[1], g[2]>> : g \in Grid}
      [] n = "search" -> {<<n, k, a[1], a[2], b[1], b[2]>> : a \in Grid, b \in {g \in Grid : TRUE}}
      [] n = "clear" -> {<<n, k>>}
      [] n = "copy" -> {<<n, k, j>> : j \in Slots}
      [] n \in {"asg", "swap", "eq"} -> {<<n, k, j>> : j \in LiveSlots}
      [] OTHER -> {}
Ops == IF LiveSlots = {} THEN {<<"new", 0>>}
       ELSE {o \in UNION {OpsOf(n, k) : n \in CALLS, k \in LiveSlots} : o[1] # "search" \/ (o[3] <= o[5] /\ o[4] <= o[6])}

Drop(s, g) == SelectSeq(s, LAMBDA p : p # g)
NewOrder(op) ==
    LET k == op[2] + 1 IN
    CASE op[1] = "ins" -> LET g == <<op[3], op[4]>> IN
                          IF Get(S[k].pts, g) # <<>> THEN order ELSE [order EXCEPT ![k] = Append(@, g)]
      [] op[1] = "rem" -> [order EXCEPT ![k] = Drop(@, <<op[3], op[4]>>)]
      [] op[1] = "clear" -> [order EXCEPT ![k] = <<>>]
      [] op[1] \in {"copy", "asg"} -> [order EXCEPT ![op[3] + 1] = order[k]]
      [] op[1] = "swap" -> [order EXCEPT ![op[3] + 1] = order[k], ![k] = order[op[3] + 1]]
      [] OTHER -> order

Inv == \A i \in 1..NSLOTS :
          /\ \A j \in 1..(Len(S[i].pts) - 1) : Less(S[i].pts[j], S[i].pts[j + 1])
          /\ {<<S[i].pts[j][1], S[i].pts[j][2]>> : j \in 1..Len(S[i].pts)} = {order[i][j] : j \in 1..Len(order[i])}

ValueAt(T, k, g) == LET f == Get(T[k + 1].pts, g) IN IF f = <<>> THEN -1 ELSE f[1][3]
LawOK(op, o) ==
    LET k == op[2] IN
    /\ op[1] = "ins" => \A g \in Grid : ValueAt(o.st, k, g) = IF g = <<op[3], op[4]>> THEN op[5] ELSE ValueAt(S, k, g)
    /\ op[1] = "rem" => \A g \in Grid : ValueAt(o.st, k, g) = IF g = <<op[3], op[4]>> THEN -1 ELSE ValueAt(S, k, g)
    /\ op[1] = "search" =>
         {<<p[1], p[2]>> : p \in {o.res[2][j] : j \in 1..Len(o.res[2])}} =
         {g \in Grid : ValueAt(S, k, g) >= 0 /\ g[1] \in op[3]..op[5] /\ g[2] \in op[4]..op[6]}
    /\ op[1] = "search" => Len(o.res[4]) = Len(o.res[2])
    /\ op[1] = "eq" => o.res[2] = (\A g \in Grid : ValueAt(S, k, g) = ValueAt(S, op[3], g))
    /\ \A j \in Slots : o.st[j + 1] # S[j + 1] => \E i \in 2..Len(op) : i <= 3 /\ op[i] = j

Next == \E op \in Ops :
    LET o == Apply(S, op) IN
    /\ Assert(LawOK(op, o), <<"law broken", hist, op, o>>)
    /\ PrintT("T " \o ToJson(<<hist, op>>))
    /\ S' = o.st
    /\ order' = NewOrder(op)
    /\ hist' = Append(hist, op)
=============================================================================
