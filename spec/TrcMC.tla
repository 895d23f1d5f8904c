-------------------------------- MODULE TrcMC --------------------------------
(* Exhaustive exploration of the call tracing specification: every call on    *)
(* every small content of the slots.                                          *)
EXTENDS Trc, Json

CONSTANTS TYPES, CAP, NSLOTS, CALLS
VARIABLES S, hist
View == [i \in 1..NSLOTS |-> <<S[i].al, [p \in 1..Len(S[i].c) |-> TypeOf(S[i].c[p])]>>]

Slots == 0..(NSLOTS - 1)
LiveSlots == {k \in Slots : S[k + 1].al}
Init == S = [i \in 1..3 |-> Dead] /\ hist = <<>>
V == Len(hist) % 3
Z(k) == Len(S[k + 1].c)
OpsOf(n, k) ==
    CASE n = "new" -> {<<n, k, f, m, t, V>> : f \in 3..5, m \in 0..CAP, t \in TYPES} \cup {<<n, k, f, 0, 1, 0>> : f \in 0..2}
      [] n \in {"cctor", "mctor", "clo", "cloh"} -> {<<n, k, j>> : j \in Slots \ {k}}
      [] n \in {"masg", "swap"} -> {<<n, k, j>> : j \in LiveSlots \ {k}}
      [] n = "asg" -> {<<n, k, j>> : j \in LiveSlots}
      [] n \in {"del", "pushe", "clr", "shr", "det", "size", "bsz", "empty", "rela"} -> {<<n, k>>}
      [] n = "swr" -> {<<n, k, j, a, b, d>> : j \in LiveSlots \ {k}, a \in 0..Z(k), b \in 0..Z(k), d \in 0..CAP}
      [] n = "tra" -> {<<n, k, j, a, b, d, h>> : j \in LiveSlots, a \in 0..Z(k), b \in 0..Z(k), d \in 0..CAP, h \in 0..1}
      [] n = "set" -> {<<n, k, h, p, t, V>> : h \in 0..1, p \in 0..Z(k), t \in TYPES}
      [] n \in {"setr", "ins"} -> {<<n, k, h, p, t, V, m>> : h \in 0..1, p \in 0..Z(k), t \in TYPES, m \in 1..2}
      [] n = "push" -> {<<n, k, t, V, f>> : t \in TYPES, f \in 0..2}
      [] n \in {"emp", "relr"} -> {<<n, k, h, a, b>> : h \in 0..1, a \in 0..Z(k), b \in 0..Z(k)}
      [] n = "inse" -> {<<n, k, h, p, m>> : h \in 0..1, p \in 0..Z(k), m \in 1..2}
      [] n = "era" -> {<<n, k, a, b>> : a \in 0..Z(k), b \in 0..Z(k)}
      [] n = "rsz" -> {<<n, k, m>> : m \in 0..CAP}
      [] n = "get" -> {<<n, k, f, p>> : f \in 0..1, p \in 0..Z(k)}
      [] n \in {"type", "ise"} -> {<<n, k, p>> : p \in 0..Z(k)}
      [] n = "pos" -> {<<n, k, f, p>> : f \in 0..3, p \in 0..(Z(k) + 1)}
      [] n = "it" -> {<<n, k, f>> : f \in 0..11}
      [] n = "rel" -> {<<n, k, f, p>> : f \in 0..2, p \in {q \in 0..Z(k) : q = Z(k) \/ S[k + 1].c[q + 1] # 0}}
      [] n = "eq" -> {<<n, k, j, f>> : j \in LiveSlots, f \in 0..1}
      [] n = "evh" -> {<<n, k, f>> : f \in 0..1}
Ops == IF LiveSlots = {} THEN {<<"new", 0, 0, 0, 1, 0>>} ELSE UNION {OpsOf(n, k) : n \in CALLS, k \in LiveSlots}
Fits(st) == \A i \in 1..3 : Len(st[i].c) <= CAP
LawOK(op, o) ==
    LET e == Effect(S, op) r == o.res[3][1] IN
    /\ Len(o.res[3]) = 1                                     \* reported once
    /\ r[1] \in {Accessor, AccessorHint} => \A i \in 1..3 : (i # op[2] + 1 /\ op[1] \in {"clo", "cloh"}) \/ o.st[i] = S[i] \* accessors change nothing
    /\ e.out # "ok" => o.st = S                               \* nor do refused calls, which are reported all the same
    /\ Apply(S, op, FALSE).st = o.st /\ Apply(S, op, FALSE).res[3] = <<>>  \* without a trace function: the same, unreported
Next == \E op \in Ops :
    LET o == Apply(S, op, TRUE) IN
    /\ Fits(o.st)
    /\ Assert(LawOK(op, o), <<"law broken", hist, op, o>>)
    /\ PrintT("T " \o ToJson(<<hist, op>>))
    /\ S' = o.st
    /\ hist' = Append(hist, op)
Inv == \A i \in 1..3 : \A p \in 1..Len(S[i].c) : S[i].c[p] = 0 \/ (TypeOf(S[i].c[p]) \in TYPES \cup {1} /\ ValueOf(S[i].c[p]) \in 0..2)
=============================================================================
