-------------------------------- MODULE SsmMC --------------------------------
(* every table over a small universe of keys and values *)
EXTENDS Ssm, Json
CONSTANTS LETTERS, KLEN, NVALS
VARIABLES m, hist
vars == <<m, hist>>
View == m
Universe == KeysUpTo(LETTERS, KLEN)
Vals == 0..(NVALS - 1)
Ops == {<<"put", k, v>> : k \in Universe, v \in Vals} \cup {<<n, k>> : n \in {"del", "find"}, k \in Universe}
Code(op) == IF op[1] = "put" THEN <<op[1], Enc(op[2]), op[3]>> ELSE <<op[1], Enc(op[2])>>
Init == m = <<>> /\ hist = <<>>
Inv == Ascending(m)
LawOK(op, o) ==
    /\ \A k \in Universe : Find(o.st, k) = IF k # op[2] \/ op[1] = "find" THEN Find(m, k) ELSE IF op[1] = "put" THEN op[3] ELSE Null
    /\ \A v \in Vals : \E k \in Universe : RevOK(o.st, v, k)
Next == \E op \in Ops :
    LET o == Apply(m, op) IN
    /\ Assert(LawOK(op, o), <<"law broken", hist, op, o>>)
    /\ PrintT("T " \o ToJson(<<hist, Code(op)>>))
    /\ m' = o.st
    /\ hist' = Append(hist, Code(op))
=============================================================================
