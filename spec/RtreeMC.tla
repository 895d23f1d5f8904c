------------------------------ MODULE RtreeMC ------------------------------
(* Exhaustive exploration of the rtree specification (two dimensions).  The   *)
(* shape of the real tree depends on the order of insertions and erasures, so *)
(* the order in which the stored objects came is part of the explored state.  *)
EXTENDS Rtree, Json

CONSTANTS BOXES, NVALS, CAP, NSLOTS, CALLS
VARIABLES S, order, hist
vars == <<S, order, hist>>
View == <<S, order>>

D == 2
Slots == 0..(NSLOTS - 1)
LiveSlots == {k \in Slots : S[k + 1].alive}
(* menu of boxes by number *)
Menu == <<<<0, 0, 0, 0>>, <<1, 1, 1, 1>>, <<0, 0, 1, 1>>, <<-1, 1, 2, 1>>, <<2, -1, 2, 2>>, <<2, 2, 2, 2>>, <<-1, -1, 0, 2>>, <<1, 0, 2, 1>>>>
Boxes == {Menu[i] : i \in BOXES}
Grid == {<<x, y>> : x \in -1..2, y \in -1..2}
Inside(g, b) == b[1] <= g[1] /\ g[1] <= b[3] /\ b[2] <= g[2] /\ g[2] <= b[4]

Init == S = [i \in 1..NSLOTS |-> Dead] /\ order = [i \in 1..NSLOTS |-> <<>>] /\ hist = <<>>

OpsOf(n, k) ==
    CASE n = "ins" -> {<<n, k, IF b[1] = b[3] /\ b[2] = b[4] THEN 2 ELSE 0>> \o b \o <<v>> : b \in {c \in Boxes : Len(S[k + 1].objs) < CAP}, v \in 0..(NVALS - 1)}
      [] n = "era" -> {<<n, k, 1, i>> \o b : b \in Boxes, i \in {0}}
      [] n = "search" -> {<<n, k, q>> \o b : b \in Boxes, q \in {0, 1, 4}}
      [] n \in {"clear", "chk"} -> {<<n, k>>}
      [] n \in {"copy", "move"} -> {<<n, k, j>> : j \in {i \in Slots : n = "copy" \/ i # k}}
      [] n \in {"asg", "masg", "swap"} -> {<<n, k, j>> : j \in LiveSlots}
      [] OTHER -> {}
Ops == IF LiveSlots = {} THEN {<<"new", 0>>}
       ELSE UNION {OpsOf(n, k) : n \in CALLS, k \in LiveSlots}

(* every (result, next state) the specification allows for a call             *)
Leaf == <<2, TRUE, <<0, 0, 0, 0>>, <<>>>>
Steps(op) ==
    IF op[1] = "era"
    THEN LET cand == Candidates(S[op[2] + 1], op, D) IN
         IF cand = <<>> THEN {Out(S, <<"none">>)}
         ELSE {Out(Resolve(S, op, <<"erased", cand[i]>>, D)[1], <<"erased", cand[i]>>) : i \in 1..Len(cand)}
    ELSE {Apply(S, op, D, Leaf, 1)}

Drop(s, g) == LET i == CHOOSE j \in 1..Len(s) : s[j] = g IN SubSeq(s, 1, i - 1) \o SubSeq(s, i + 1, Len(s))
NewOrder(op, o) ==
    LET k == op[2] + 1 IN
    CASE op[1] = "ins" -> [order EXCEPT ![k] = Append(@, SubSeq(op, 4, 8))]
      [] op[1] = "era" -> IF o.res[1] = "none" THEN order ELSE [order EXCEPT ![k] = Drop(@, o.res[2])]
      [] op[1] = "clear" -> [order EXCEPT ![k] = <<>>]
      [] op[1] \in {"copy", "asg"} -> [order EXCEPT ![op[3] + 1] = order[k]]
      [] op[1] \in {"move", "masg"} -> IF op[2] = op[3] THEN order ELSE [order EXCEPT ![op[3] + 1] = order[k], ![k] = <<>>]
      [] op[1] = "swap" -> [order EXCEPT ![op[3] + 1] = order[k], ![k] = order[op[3] + 1]]
      [] OTHER -> order

Count(s, x) == Cardinality({i \in 1..Len(s) : s[i] = x})
AllObjs(T) == UNION {{T[i].objs[j] : j \in 1..Len(T[i].objs)} : i \in 1..NSLOTS}
Inv == \A i \in 1..NSLOTS :
          /\ \A j \in 1..(Len(S[i].objs) - 1) : ~Less(S[i].objs[j + 1], S[i].objs[j])
          /\ Len(order[i]) = Len(S[i].objs)
          /\ \A x \in AllObjs(S) : Count(S[i].objs, x) = Count(order[i], x)
          (* the hull holds every object, and no side of it can move in       *)
          /\ LET h == Hull(S[i].objs, D) IN S[i].objs # <<>> =>
               /\ \A j \in 1..Len(S[i].objs) : Contains(h, S[i].objs[j], D)
               /\ \A c \in 1..4 : \E j \in 1..Len(S[i].objs) : S[i].objs[j][c] = h[c]

LawOK(op, o) ==
    LET k == op[2] IN
    /\ op[1] = "ins" => LET x == SubSeq(op, 4, 8) IN
         \A y \in AllObjs(o.st) : Count(o.st[k + 1].objs, y) = Count(S[k + 1].objs, y) + (IF y = x THEN 1 ELSE 0)
    /\ op[1] = "era" => IF o.res[1] = "none" THEN o.st = S ELSE
         \A y \in AllObjs(S) : Count(o.st[k + 1].objs, y) = Count(S[k + 1].objs, y) - (IF y = o.res[2] THEN 1 ELSE 0)
    (* boxes overlap exactly when some point of the grid lies in both         *)
    /\ (op[1] = "search" /\ op[3] % 2 = 0) =>
         \A y \in AllObjs(S) : Count(o.res[2], Append(y, 1)) =
              IF \E g \in Grid : Inside(g, y) /\ Inside(g, SubSeq(op, 4, 7)) THEN Count(S[k + 1].objs, y) ELSE 0
    /\ (op[1] = "search" /\ op[3] % 2 = 1) =>
         \A y \in AllObjs(S) : Count(o.res[2], Append(y, 1)) =
              IF {g \in Grid : Inside(g, y)} = {g \in Grid : Inside(g, SubSeq(op, 4, 7))} THEN Count(S[k + 1].objs, y) ELSE 0
    /\ op[1] = "search" => o.res[4] = Len(o.res[2])
    /\ \A j \in Slots : o.st[j + 1] # S[j + 1] => (j = op[2] \/ (Len(op) > 2 /\ j = op[3]))

Next == \E op \in Ops : \E o \in Steps(op) :
    /\ Assert(LawOK(op, o), <<"law broken", hist, op, o>>)
    /\ PrintT("T " \o ToJson(<<hist, op>>))
    /\ S' = o.st
    /\ order' = NewOrder(op, o)
    /\ hist' = Append(hist, op)
=============================================================================
