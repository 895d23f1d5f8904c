-------------------------------- MODULE FSTMC --------------------------------
(* Exhaustive exploration of the flat_segment_tree specification over small   *)
(* constants.  Every transition is asserted against laws stated independently *)
(* of the actions, and printed with a shortest history leading to it: those   *)
(* histories are replayed on the real container.                              *)
EXTENDS FST, Json

CONSTANTS LO, HI, NVALS, NSLOTS, CALLS

VARIABLES S, hist
vars == <<S, hist>>
View == S

Vals == 0..(NVALS - 1)
Slots == 0..(NSLOTS - 1)
LiveSlots == {k \in Slots : Live(S[k + 1])}

Init == S = [i \in 1..NSLOTS |-> Dead] /\ hist = <<>>

OpsOf(n, k) ==
    CASE n \in {"insf", "insb"} -> {<<n, k, a, b, v>> : a \in (LO-1)..HI, b \in LO..(HI+1), v \in Vals}
      [] n = "insp" -> {<<n, k, a, b, v, h>> : a \in (LO-1)..HI, b \in LO..(HI+1), v \in Vals, h \in LO..(HI-1)}
      [] n = "shl" -> {<<n, k, a, b>> : a \in (LO-1)..HI, b \in LO..(HI+1)}
      [] n = "shr" -> {<<n, k, a, b, q>> : a \in (LO-1)..HI, b \in 0..(HI-LO+1), q \in {0, 1}}
      [] n \in {"build", "clear", "trav"} -> {<<n, k>>}
      [] n \in {"find", "pos", "tree", "tpos"} -> {<<n, k, a>> : a \in (LO-1)..HI}
      [] n \in {"findp", "posp"} -> {<<n, k, a, h>> : a \in (LO-1)..HI, h \in (LO..(HI-1)) \cup {-10, -11, -12, -14}}
      [] n = "copy" -> {<<n, k, j>> : j \in Slots}
      [] n \in {"asg", "masg", "swap", "eq"} -> {<<n, k, j>> : j \in LiveSlots}
      [] n = "move" -> {<<n, k, j>> : j \in Slots \ {k}}
      [] OTHER -> {}

Ops == IF LiveSlots = {} THEN {<<"new", 0, LO, HI, 0>>}
       ELSE UNION {OpsOf(n, k) : n \in CALLS, k \in LiveSlots}

(* -------- laws -------- *)
(* provenance: the value at key k explained backwards through the history     *)
RECURSIVE Origin(_, _)
Origin(h, k) ==
    IF h = <<>> THEN 0
    ELSE LET op == h[Len(h)]
             r == SubSeq(h, 1, Len(h) - 1)
             n == op[1]
         IN CASE n = "new" -> op[5]
              [] n \in {"insf", "insb", "insp"} -> IF op[3] <= k /\ k < op[4] THEN op[5] ELSE Origin(r, k)
              [] n = "clear" -> 0
              [] n = "shl" ->
                    IF op[3] >= op[4] \/ op[3] < LO \/ op[4] > HI \/ k < op[3] THEN Origin(r, k)
                    ELSE IF k + op[4] - op[3] >= HI THEN 0 ELSE Origin(r, k + op[4] - op[3])
              [] n = "shr" ->
                    IF op[4] <= 0 \/ op[3] < LO \/ op[3] >= HI \/ k < op[3] THEN Origin(r, k)
                    ELSE IF k >= op[3] + op[4] THEN Origin(r, k - op[4])
                    ELSE IF op[5] = 1 THEN Origin(r, op[3])
                    ELSE IF op[3] = LO THEN 0 ELSE Origin(r, op[3] - 1)
              [] OTHER -> Origin(r, k)

CanonOK(c) ==
    LET s == Canon(c) g == Segments(c) IN
    /\ s[1][1] = c.lo /\ s[Len(s)][1] = c.hi
    /\ \A i \in 1..(Len(s) - 1) : s[i][1] < s[i + 1][1]
    /\ \A i \in 1..(Len(s) - 2) : s[i][2] # s[i + 1][2]
    /\ Len(g) = Len(s) - 1
    /\ \A i \in 1..Len(g) : g[i] = <<s[i][1], s[i + 1][1], s[i][2]>>
    /\ \A k \in Keys(c) : \E i \in 1..Len(g) : g[i][1] <= k /\ k < g[i][2] /\ g[i][3] = c.f[k]

TreeFlagOK(op, o) ==
    \A k \in Slots : LET b == o.st[k + 1] IN
        b.tv => \/ op[1] = "build" /\ op[2] = k
                \/ \E j \in Slots : S[j + 1].tv /\ S[j + 1].f = b.f

LawOK(op, o) ==
    /\ NSLOTS = 1 => \A k \in Keys(o.st[1]) : o.st[1].f[k] = Origin(Append(hist, op), k)
    /\ TreeFlagOK(op, o)
    \* a call changes no container it does not name
    /\ \A k \in Slots : o.st[k + 1] # S[k + 1] => \E i \in 2..Len(op) : i <= 3 /\ op[i] = k
    \* writes are idempotent
    /\ op[1] \in {"insf", "insb", "insp"} =>
          LET p == Apply(o.st, op) IN p.st = o.st /\ p.res[2] = FALSE /\ p.res[3] = o.res[3]
    \* opening a gap and deleting it again restores what was not pushed out
    /\ (op[1] = "shr" /\ ShiftRightValid(S[op[2]+1], op[3], op[4]) /\ op[3] + op[4] <= HI) =>
          LET p == ShiftLeft(o.st[op[2]+1], op[3], op[3] + op[4])
          IN  \A k \in LO..(HI - 1 - op[4]) : p.f[k] = S[op[2]+1].f[k]

Next == \E op \in Ops :
    LET o == Apply(S, op) IN
    /\ Assert(LawOK(op, o), <<"law broken", hist, op, o>>)
    /\ PrintT("T " \o ToJson(<<hist, op>>))
    /\ \E z \in SUBSET {k \in o.lax : o.st[k + 1].tv} :
          S' = [i \in 1..NSLOTS |-> IF (i - 1) \in z THEN [o.st[i] EXCEPT !.tv = FALSE] ELSE o.st[i]]
    /\ hist' = Append(hist, op)

Inv == \A i \in 1..NSLOTS : Live(S[i]) => CanonOK(S[i])
=============================================================================
