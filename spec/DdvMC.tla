-------------------------------- MODULE DdvMC --------------------------------
(* Exhaustive exploration of the delayed_delete_vector specification.  The    *)
(* number of elements erased from the front since the memory was last tidied  *)
(* is not part of the specification but of the explored state, because the    *)
(* real store then looks different inside.                                    *)
EXTENDS Ddv, Json

CONSTANTS NVALS, CAP, NSLOTS, CALLS
VARIABLES S, gone, hist
vars == <<S, gone, hist>>
View == <<[i \in 1..NSLOTS |-> <<S[i].alive, Len(S[i].c)>>], gone>>

Slots == 0..(NSLOTS - 1)
LiveSlots == {k \in Slots : S[k + 1].alive}
Init == S = [i \in 1..NSLOTS |-> Dead] /\ gone = [i \in 1..NSLOTS |-> 0] /\ hist = <<>>
V == Len(hist) % NVALS
Z(k) == Len(S[k + 1].c)
OpsOf(n, k) ==
    CASE n = "new" -> {<<n, k, f, m, V, NVALS>> : f \in 0..3, m \in 0..CAP}
      [] n = "push" -> {<<n, k, f, V>> : f \in 0..2}
      [] n = "pushs" -> {<<n, k, i>> : i \in 0..(Z(k) - 1)}
      [] n = "ins" -> {<<n, k, f, p, V>> : f \in 0..1, p \in 0..Z(k)}
      [] n = "inss" -> {<<n, k, p, i>> : p \in 0..Z(k), i \in 0..(Z(k) - 1)}
      [] n = "insr" -> {<<n, k, p, m, V, NVALS>> : p \in 0..Z(k), m \in 0..2}
      [] n = "era" -> {<<n, k, p>> : p \in 0..(Z(k) - 1)}
      [] n = "erar" -> {r \in {<<n, k, a, b>> : a \in 0..Z(k), b \in 0..Z(k)} : r[3] <= r[4]}
      [] n \in {"res", "rsv"} -> {<<n, k, m>> : m \in 0..CAP}
      [] n = "asn" -> {<<n, k, m, V, NVALS>> : m \in 0..CAP}
      [] n = "shr" -> {<<n, k>>}
      [] n = "set" -> {<<n, k, f, i, V>> : f \in 0..3, i \in 0..(Z(k) - 1)}
      [] n = "at" -> {<<n, k, i>> : i \in 0..(Z(k) + 1)}
      [] n = "copy" -> {<<n, k, j>> : j \in Slots}
      [] n \in {"asg", "masg", "swap", "eq"} -> {<<n, k, j>> : j \in LiveSlots}
      [] n = "move" -> {<<n, k, j>> : j \in Slots \ {k}}
      [] OTHER -> {}
Ops == IF LiveSlots = {} THEN {<<"new", 0, 0, 0, 0, NVALS>>} ELSE UNION {OpsOf(n, k) : n \in CALLS, k \in LiveSlots}
Fits(o) == \A i \in 1..NSLOTS : Len(o.st[i].c) <= CAP
Min(a, b) == IF a < b THEN a ELSE b
NewGone(op) ==
    LET n == op[1] k == op[2] + 1 IN
    CASE n \in {"new", "res", "asn", "rsv", "shr"} -> [gone EXCEPT ![k] = 0]
      [] n = "era" -> [gone EXCEPT ![k] = IF op[3] = 0 THEN Min(2, @ + 1) ELSE @]
      [] n \in {"copy", "asg"} -> [gone EXCEPT ![op[3] + 1] = gone[k]]
      [] n \in {"move", "masg"} -> IF op[3] + 1 = k THEN gone ELSE [gone EXCEPT ![op[3] + 1] = gone[k], ![k] = 0]
      [] n = "swap" -> [gone EXCEPT ![op[3] + 1] = gone[k], ![k] = gone[op[3] + 1]]
      [] OTHER -> gone
(* pointwise laws *)
LawOK(op, o) ==
    LET n == op[1] k == op[2] + 1 c == S[k].c d == o.st[k].c z == Len(c)
        shifted(p, m) == /\ Len(d) = z + m  \* m cells came in at p (or left)
                         /\ \A i \in 1..z : i <= p => d[i] = c[i]
                         /\ \A i \in 1..z : (i > p /\ i + m > p) => d[i + m] = c[i] IN
    /\ \A i \in 1..NSLOTS : o.st[i] # S[i] => i = k \/ (n \in {"copy", "asg", "move", "masg", "swap"} /\ i = op[3] + 1)
    /\ n = "ins" => shifted(op[4], 1) /\ d[op[4] + 1] = op[5]
    /\ n = "inss" => shifted(op[3], 1) /\ d[op[3] + 1] = c[op[4] + 1]
    /\ n = "insr" => shifted(op[3], op[4])
    /\ n = "era" => shifted(op[3], -1)
    /\ n = "erar" => Len(d) = z - (op[4] - op[3]) /\ \A i \in 1..z : ~(op[3] < i /\ i <= op[4]) => d[IF i <= op[3] THEN i ELSE i - (op[4] - op[3])] = c[i]
    /\ n \in {"push", "pushs"} => shifted(z, 1)
    /\ n = "res" => Len(d) = op[3] /\ \A i \in 1..op[3] : d[i] = IF i <= z THEN c[i] ELSE 0
    /\ n = "set" => \A i \in 1..z : d[i] = IF i = op[4] + 1 THEN op[5] ELSE c[i]
    /\ n \in {"rsv", "shr", "eq", "at"} => o.st = S
    /\ n \in {"copy", "asg"} => o.st[op[3] + 1].c = c /\ d = c
    /\ n = "swap" => o.st[op[3] + 1].c = c /\ d = S[op[3] + 1].c
Next == \E op \in Ops :
    LET o == Apply(S, op) IN
    /\ Fits(o)
    /\ Assert(LawOK(op, o), <<"law broken", hist, op, o>>)
    /\ PrintT("T " \o ToJson(<<hist, op>>))
    /\ S' = o.st
    /\ gone' = NewGone(op)
    /\ hist' = Append(hist, op)
Inv == \A i \in 1..NSLOTS : \A j \in 1..Len(S[i].c) : S[i].c[j] \in 0..(NVALS - 1)
=============================================================================
