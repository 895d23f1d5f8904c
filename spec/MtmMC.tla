-------------------------------- MODULE MtmMC --------------------------------
(* Exhaustive exploration of the multi_type_matrix specification.             *)
EXTENDS Mtm, Json

CONSTANTS MAXR, MAXC, TYPES, VALUES, NSLOTS, CALLS
VARIABLES S, hist
vars == <<S, hist>>
View == S

Slots == 0..(NSLOTS - 1)
Live == {k \in Slots : S[k + 1].alive}
Init == S = [i \in 1..NSLOTS |-> Dead] /\ hist = <<>>

Rows(k) == IF IsEmpty(S[k + 1]) THEN {} ELSE 0..(S[k + 1].rows - 1)
Cols(k) == IF IsEmpty(S[k + 1]) THEN {} ELSE 0..(S[k + 1].cols - 1)
Cells(k) == Len(S[k + 1].cells)
Shapes == {<<r, c>> \in (0..MAXR) \X (0..MAXC) : (r = 0) = (c = 0) \/ r = 0}
TV == TYPES \X VALUES
OpsOf(n, k) ==
    CASE n = "set"   -> {<<n, k, r, c, x[1], x[2]>> : r \in Rows(k), c \in Cols(k), x \in TV}
      [] n = "setp"  -> {<<n, k, r, c, x[1], x[2], h, g>> : r \in Rows(k), c \in Cols(k), x \in TV, h \in Rows(k), g \in Cols(k)}
      [] n = "get"   -> {<<n, k, r, c, t>> : r \in Rows(k), c \in Cols(k), t \in 1..4}
      [] n = "sete"  -> {<<n, k, r, c>> : r \in Rows(k), c \in Cols(k)}
      [] n \in {"setep", "pos"} -> {<<n, k, r, c, h, g>> : r \in Rows(k), c \in Cols(k), h \in Rows(k), g \in Cols(k)}
      [] n = "setel" -> {<<n, k, r, c, len>> : r \in Rows(k), c \in Cols(k), len \in 0..(Cells(k) + 1)}
      [] n = "setce" -> {<<n, k, c>> : c \in Cols(k)}
      [] n = "setre" -> {<<n, k, r>> : r \in Rows(k)}
      [] n = "setr"  -> {<<n, k, r, c, x[1], x[2], len>> : r \in Rows(k), c \in Cols(k), x \in TV, len \in 0..(Cells(k) + 1)}
      [] n = "setpr" -> {<<n, k, r, c, x[1], x[2], len>> : r \in Rows(k), c \in Cols(k), x \in TV, len \in 1..(Cells(k) + 1)}
      [] n = "setc"  -> {<<n, k, c, x[1], x[2], len>> : c \in Cols(k), x \in TV, len \in 0..(S[k + 1].rows + 1)}
      [] n = "new"   -> {<<n, k, s[1], s[2]>> : s \in Shapes} \cup {<<n, k, -1, 0>>}
      [] n = "newv"  -> {<<n, k, s[1], s[2], x[1], x[2]>> : s \in Shapes, x \in TV}
      [] n = "newr"  -> {<<n, k, s[1], s[2], x[1], x[2], len>> : s \in Shapes, x \in TV \cup {<<Unsupported, 0>>}, len \in 0..(MAXR * MAXC)}
      [] n = "res"   -> {<<n, k, s[1], s[2]>> : s \in (0..MAXR) \X (0..MAXC)}
      [] n = "resv"  -> {<<n, k, s[1], s[2], x[1], x[2]>> : s \in (0..MAXR) \X (0..MAXC), x \in TV}
      [] n = "cpya"  -> {<<n, k, s[1], s[2], x[1], x[2], len>> : s \in (1..(MAXR + 1)) \X (1..MAXC), x \in TV \cup {<<Unsupported, 0>>}, len \in 0..(MAXR * MAXC + 1)}
      [] n \in {"tr", "clear", "scan", "walk"} -> {<<n, k>>}
      [] n \in {"cpy", "swap", "asg", "eq", "walk2"} -> {<<n, k, j>> : j \in Live}
      [] n = "copy"  -> {<<n, k, j>> : j \in Slots}
      [] n = "move"  -> {<<n, k, j, z>> : j \in Slots \ {k}, z \in 0..1}
      [] n = "masg"  -> {<<n, k, j, z>> : j \in Live \ {k}, z \in 0..1}
      [] n = "walks" -> {<<n, k, r1, c1, r2, c2>> : r1 \in 0..S[k + 1].rows, c1 \in 0..S[k + 1].cols, r2 \in 0..S[k + 1].rows, c2 \in 0..S[k + 1].cols}
      [] n = "walk2s" -> {<<n, k, j, r1, c1, r2, c2>> : j \in Live, r1 \in 0..S[k + 1].rows, c1 \in 0..S[k + 1].cols, r2 \in 0..S[k + 1].rows, c2 \in 0..S[k + 1].cols}
      [] OTHER -> {}
Ops == IF Live = {} THEN {<<"new", 0, s[1], s[2]>> : s \in Shapes}
       ELSE UNION {OpsOf(n, k) : n \in CALLS, k \in Live}
            \cup (IF "new" \in CALLS THEN {<<"new", k, s[1], s[2]>> : k \in Slots \ Live, s \in Shapes} ELSE {})

Fits(m) == m.rows <= MAXR /\ m.cols <= MAXC
Inv == \A i \in 1..NSLOTS : Len(S[i].cells) = S[i].rows * S[i].cols

(* what the calls mean, element by element *)
Pos(m) == (0..(m.rows - 1)) \X (0..(m.cols - 1))
Touched(m, op) ==
    CASE op[1] \in {"set", "setp", "sete", "setep"} -> {<<op[3], op[4]>>}
      [] op[1] \in {"setel"} -> {p \in Pos(m) : Linear(m, p[1], p[2]) \in Linear(m, op[3], op[4])..(Linear(m, op[3], op[4]) + op[5] - 1)}
      [] op[1] \in {"setr", "setpr"} -> {p \in Pos(m) : Linear(m, p[1], p[2]) \in Linear(m, op[3], op[4])..(Linear(m, op[3], op[4]) + op[7] - 1)}
      [] op[1] = "setce" -> {p \in Pos(m) : p[2] = op[3]}
      [] op[1] = "setre" -> {p \in Pos(m) : p[1] = op[3]}
      [] op[1] = "setc" -> {p \in Pos(m) : p[2] = op[3] /\ p[1] < op[6]}
      [] op[1] = "cpya" -> {p \in Pos(m) : p[1] < op[3] /\ p[2] < op[4]}
      [] op[1] = "cpy" -> {p \in Pos(m) : Inside(S[op[3] + 1], p[1], p[2])}
      [] OTHER -> Pos(m)
Writes == {"set", "setp", "sete", "setep", "setel", "setr", "setpr", "setce", "setre", "setc", "cpya", "cpy"}
LawOK(op, o) ==
    LET k == op[2] + 1
        m == S[k]
        w == o.st[k]
        bad == o.res[1] = "thrown"
    IN
    /\ bad => o.st = S
    /\ op[1] \in Writes => w.rows = m.rows /\ w.cols = m.cols
    /\ op[1] \in Writes => \A p \in Pos(m) \ Touched(m, op) : At(w, p[1], p[2]) = At(m, p[1], p[2])
    /\ op[1] \in {"set", "setp"} => At(w, op[3], op[4]) = <<op[5], op[6]>>
    /\ op[1] \in {"sete", "setep", "setel", "setce", "setre"} /\ ~bad => \A p \in Touched(m, op) : At(w, p[1], p[2]) = Empty
    /\ op[1] \in {"setr", "setpr"} /\ ~bad => \A p \in Touched(m, op) :
         At(w, p[1], p[2]) = <<op[5], SeriesValue(op[5], op[6], Linear(m, p[1], p[2]) - Linear(m, op[3], op[4]))>>
    /\ op[1] = "setc" => \A p \in Touched(m, op) : At(w, p[1], p[2]) = <<op[4], SeriesValue(op[4], op[5], p[1])>>
    /\ op[1] = "cpya" /\ ~bad /\ op[7] > 0 => \A p \in Touched(m, op) : At(w, p[1], p[2]) = <<op[5], SeriesValue(op[5], op[6], op[3] * p[2] + p[1])>>
    /\ op[1] = "cpy" => \A p \in Touched(m, op) : At(w, p[1], p[2]) = At(S[op[3] + 1], p[1], p[2])
    /\ op[1] \in {"res", "resv"} =>
         /\ IF op[3] = 0 \/ op[4] = 0 THEN w = Zero ELSE w.rows = op[3] /\ w.cols = op[4]
         /\ \A p \in Pos(w) : At(w, p[1], p[2]) = IF Inside(m, p[1], p[2]) THEN At(m, p[1], p[2])
                                                  ELSE IF op[1] = "res" THEN Empty ELSE <<op[5], op[6]>>
    /\ op[1] = "tr" => /\ w.rows = m.cols /\ w.cols = m.rows
                       /\ \A p \in Pos(m) : At(w, p[2], p[1]) = At(m, p[1], p[2])
                       /\ Transposed(w) = m
    /\ op[1] = "walks" /\ ~bad => Len(o.res[2]) = (op[5] - op[3] + 1) * (op[6] - op[4] + 1)
    /\ op[1] = "walk2s" /\ ~bad => Len(o.res[2]) = Len(o.res[3])
    /\ op[1] = "eq" => o.res[2] = (m.rows = S[op[3] + 1].rows /\ m.cols = S[op[3] + 1].cols /\ \A p \in Pos(m) : At(m, p[1], p[2]) = At(S[op[3] + 1], p[1], p[2]))
    /\ \A j \in Slots : o.st[j + 1] # S[j + 1] => j = op[2] \/ (op[1] \in {"swap", "copy", "asg", "move", "masg"} /\ j = op[3])
    (* conversions *)
    /\ \A i \in DOMAIN w.cells : LET x == w.cells[i] IN
         /\ x[1] = 4 => AsInteger(x) = x[2]
         /\ x[1] \in {0, 3} => Numeric2(x) = 0 /\ AsInteger(x) = 0 /\ AsBoolean(x) = 0
         /\ x[1] = 2 => AsBoolean(x) = x[2]

Next == \E op \in Ops :
    LET o == Apply(S, op) IN
    /\ \A i \in 1..NSLOTS : Fits(o.st[i])
    /\ Assert(LawOK(op, o), <<"law broken", hist, op, o>>)
    /\ PrintT("T " \o ToJson(<<hist, op>>))
    /\ S' = o.st
    /\ hist' = Append(hist, op)
=============================================================================
