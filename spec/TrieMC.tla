-------------------------------- MODULE TrieMC --------------------------------
(* Exhaustive exploration of the trie specification over a small universe of  *)
(* keys, with laws asserted on every transition.                              *)
EXTENDS Trie, Json
CONSTANTS NTRIE, LETTERS, KLEN, NVALS, CAP, NSLOTS, CALLS
VARIABLES S, hist
vars == <<S, hist>>
View == S

Universe == KeysUpTo(LETTERS, KLEN)
Vals == 0..(NVALS - 1)
Slots == 0..(NSLOTS - 1)
IsTrie(k) == k < NTRIE
LiveSlots == {k \in Slots : S[k + 1].alive}
Same(k, j) == IsTrie(k) = IsTrie(j)
Init == S = [i \in 1..NSLOTS |-> Dead] /\ hist = <<>>

OpsOf(n, k) ==
    CASE n = "ins" -> IF IsTrie(k) THEN {<<n, k, x, v>> : x \in {y \in Universe : Len(S[k + 1].items) < CAP \/ HasKey(S[k + 1].items, y)}, v \in Vals} ELSE {}
      [] n = "setv" -> IF IsTrie(k) THEN {<<n, k, x, v>> : x \in Universe, v \in Vals} ELSE {}
      [] n = "era" -> IF IsTrie(k) THEN {<<n, k, x>> : x \in Universe} ELSE {}
      [] n \in {"find", "pre"} -> {<<n, k, x>> : x \in Universe}
      [] n = "walk" -> {<<n, k, x, abc[1], abc[2], abc[3]>> : x \in Universe, abc \in {<<9, 9, 9>>, <<0, 9, 9>>, <<1, 2, 0>>, <<2, 1, 1>>}}
      [] n = "walkb" -> {<<n, k, 9, 9, 9>>}
      [] n = "pwalk" -> {<<n, k, x, 9, 9, 9>> : x \in Universe}
      [] n = "eqn" -> {<<n, k, x, v, y>> : x \in Universe, v \in {-1, 0}, y \in Universe}
      [] n = "clear" -> IF IsTrie(k) THEN {<<n, k>>} ELSE {}
      [] n = "xload" -> IF IsTrie(k) THEN {} ELSE {<<n, k>>}
      [] n = "copy" -> {<<n, k, j>> : j \in {i \in Slots : Same(k, i)}}
      [] n = "move" -> {<<n, k, j>> : j \in {i \in Slots : Same(k, i) /\ i # k}}
      [] n = "mclr" -> IF IsTrie(k) THEN {<<n, k, j>> : j \in {i \in Slots : Same(k, i) /\ i # k}} ELSE {}
      [] n \in {"asg", "swap", "eq"} -> {<<n, k, j>> : j \in {i \in LiveSlots : Same(k, i)}}
      [] n = "masg" -> {<<n, k, j>> : j \in {i \in LiveSlots : Same(k, i) /\ i # k}}
      [] n = "pack" -> IF IsTrie(k) THEN {<<n, k, j, d>> : j \in {i \in Slots : ~IsTrie(i)}, d \in 0..2} ELSE {}
      [] n \in {"sl", "hdr"} -> IF IsTrie(k) THEN {} ELSE {<<n, k, j>> : j \in {i \in LiveSlots : ~IsTrie(i)}}
      [] n = "trunc" -> IF IsTrie(k) THEN {} ELSE {<<n, k, j, 0>> : j \in {i \in LiveSlots : ~IsTrie(i)}}
      [] OTHER -> {}
Ops == IF LiveSlots = {} THEN {<<"new", 0>>} ELSE UNION {OpsOf(n, k) : n \in CALLS, k \in LiveSlots}
KeyCalls == {"eqn", "ins", "era", "find", "setv", "pre", "walk", "pwalk"}
Code(op) == IF op[1] \in KeyCalls THEN IF op[1] = "eqn" THEN [op EXCEPT ![3] = Enc(op[3]), ![5] = Enc(op[5])] ELSE [op EXCEPT ![3] = Enc(op[3])] ELSE op

Inv == \A i \in 1..NSLOTS :
          /\ Ascending(S[i].items)
          /\ LET nd == Nodes(S[i].items) IN
             /\ \A j \in 1..(Len(nd) - 1) : KLess(nd[j][1], nd[j + 1][1])
             /\ Cardinality({j \in 1..Len(nd) : nd[j][2] >= 0}) = Len(S[i].items)
             /\ \A j \in 1..Len(nd) : nd[j][3] = (\E q \in 1..Len(nd) : q # j /\ HasPrefix(nd[q][1], nd[j][1]))
             \* a node without a child holds a value, except the root of an empty map
             /\ \A j \in 1..Len(nd) : ~nd[j][3] /\ nd[j][2] = -1 => Len(nd) = 1

ValueAt(T, k, x) == LET f == At(T[k + 1].items, x) IN IF f = <<>> THEN -1 ELSE f[1][2]
Reverse(s) == [i \in 1..Len(s) |-> s[Len(s) + 1 - i]]
LawOK(op, o) ==
    LET n == op[1] k == op[2] IN
    /\ n = "ins" => \A x \in Universe : ValueAt(o.st, k, x) = IF x = op[3] THEN op[4] ELSE ValueAt(S, k, x)
    /\ n = "era" => /\ o.res[2] = (ValueAt(S, k, op[3]) >= 0)
                    /\ \A x \in Universe : ValueAt(o.st, k, x) = IF x = op[3] THEN -1 ELSE ValueAt(S, k, x)
    /\ n = "setv" => \A x \in Universe : ValueAt(o.st, k, x) = IF x = op[3] /\ ValueAt(S, k, x) >= 0 THEN op[4] ELSE ValueAt(S, k, x)
    /\ n = "pre" => {o.res[2][j][1] : j \in 1..Len(o.res[2])} = {x \in Universe : HasPrefix(x, op[3]) /\ ValueAt(S, k, x) >= 0}
    \* a full tour: everything forward, the reverse back, everything forward again
    /\ n = "walkb" => LET m == S[k + 1].items t == SubSeq(o.res, 2, Len(o.res) - 1) IN
                      t = m \o <<"end">> \o Reverse(m) \o (IF m = <<>> THEN <<>> ELSE Tail(m) \o <<"end">>)
    /\ n = "eqn" => o.res[2] = (ValueAt(S, k, op[3]) < 0 \/ (op[3] = op[5] /\ (op[4] < 0 \/ op[4] = ValueAt(S, k, op[3]))))
    /\ n = "eq" => o.res[2] = (\A x \in Universe : ValueAt(S, k, x) = ValueAt(S, op[3], x))
    /\ \A j \in Slots : o.st[j + 1] # S[j + 1] =>
         IF n \in KeyCalls \cup {"clear", "new"} THEN j = k ELSE j = op[3] \/ (j = k /\ n \in {"move", "masg", "mclr", "swap"})

Next == \E op \in Ops :
    LET o == Apply(S, op) IN
    /\ Assert(LawOK(op, o), <<"law broken", hist, op, o>>)
    /\ PrintT("T " \o ToJson(<<hist, Code(op)>>))
    /\ S' = o.st
    /\ hist' = Append(hist, Code(op))
=============================================================================
