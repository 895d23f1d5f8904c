-------------------------------- MODULE Trie --------------------------------
(* Specification of mdds::trie_map and mdds::packed_trie_map.                 *)
(*                                                                            *)
(* A map is the sequence of its entries <<key, value>> in ascending order of  *)
(* the keys; keys are sequences of letters.  Slots 0..NTRIE-1 hold trie maps, *)
(* the others packed maps; both answer every query the same way.              *)
EXTENDS SeqKeys

Dead == [alive |-> FALSE, items |-> <<>>]
Fresh == [alive |-> TRUE, items |-> <<>>]

Found(m, k) == LET f == At(m, k) IN IF f = <<>> THEN <<>> ELSE f[1]
IndexOf(m, k) == CHOOSE i \in 1..Len(m) : m[i][1] = k

(* ---- the nodes of the trie, in depth-first order: every prefix of a key *)
Prefixes(k, from) == [i \in 1..(Len(k) - from + 1) |-> SubSeq(k, 1, from + i - 1)]
RECURSIVE NodeKeys(_, _)
NodeKeys(m, i) ==
    IF i > Len(m) THEN <<>>
    ELSE Prefixes(m[i][1], IF i = 1 THEN 0 ELSE Lcp(m[i - 1][1], m[i][1]) + 1) \o NodeKeys(m, i + 1)
AllNodeKeys(m) == IF m = <<>> THEN << <<>> >> ELSE NodeKeys(m, 1)
Node(m, p) == <<p, LET f == At(m, p) IN IF f = <<>> THEN -1 ELSE f[1][2],
                \E i \in 1..Len(m) : Len(m[i][1]) > Len(p) /\ HasPrefix(m[i][1], p)>>
Nodes(m) == LET ks == AllNodeKeys(m) IN [i \in 1..Len(ks) |-> Node(m, ks[i])]

(* ---- walking: positions 1..Len(s)+1, the last one being the end *)
Show(s, i) == IF i = Len(s) + 1 THEN "end" ELSE s[i]
RECURSIVE Steps(_, _, _, _)
(* the positions passed when n steps of direction d are made from i, stopping at the borders *)
Steps(s, i, n, d) ==
    IF n = 0 \/ i + d < 1 \/ i + d > Len(s) + 1 THEN <<>>
    ELSE <<i + d>> \o Steps(s, i + d, n - 1, d)
Last(path, i) == IF path = <<>> THEN i ELSE path[Len(path)]
Tour(s, i, a, b, c) ==
    LET p1 == Steps(s, i, a, 1)
        i1 == Last(p1, i)
        p2 == Steps(s, i1, b, -1)
        i2 == Last(p2, i1)
        p == <<i>> \o p1 \o p2 \o Steps(s, i2, c, 1)
    IN  [j \in 1..Len(p) |-> Show(s, p[j])]

Set(S, k, c) == [S EXCEPT ![k + 1] = c]
Out(S, r) == [st |-> S, res |-> r]
Move(S, k, j) == IF k = j THEN S ELSE Set(Set(S, k, Dead), j, S[k + 1])

(* A map of n keys of two units, `wide` of them per first unit, packed in units of the given number of bits.     *)
(* What the packed form holds per node: the position of the value, the number of index units, two per child.   *)
PackedUnits(n, wide) == LET nodes == 1 + n + (n + wide - 1) \div wide IN 1 + 2 * nodes + 2 * (nodes - 1)
UnitMax(bits) == IF bits >= 31 THEN 2147483647 ELSE 2^bits - 1
(* Packing delivers all n entries or refuses; it may only refuse what does not fit the unit. *)
BigOK(bits, n, wide, r) == \/ Len(r) = 3 /\ r = <<"big", n, 0>>
                           \/ Len(r) = 2 /\ r = <<"big", "rejected">> /\ PackedUnits(n, wide) > UnitMax(bits)
BigResult(bits, n, wide, r) == IF BigOK(bits, n, wide, r) THEN r ELSE <<"big", n, 0>>

Apply(S, op) ==
    LET n == op[1]
        k == op[2]
        c == S[k + 1]
        m == c.items
    IN
    CASE n = "new"  -> Out(Set(S, k, Fresh), <<"ok">>)
      [] n = "ins"  -> Out(Set(S, k, [c EXCEPT !.items = Put(m, op[3], op[4])]), <<"ok">>)
      [] n = "era"  -> Out(Set(S, k, [c EXCEPT !.items = Del(m, op[3])]), <<"era", HasKey(m, op[3])>>)
      [] n = "find" -> LET f == Found(m, op[3]) IN Out(S, <<"find", f, f, f, f>>)
      [] n = "setv" -> IF HasKey(m, op[3]) THEN Out(Set(S, k, [c EXCEPT !.items = Put(m, op[3], op[4])]), <<"set">>)
                       ELSE Out(S, <<"absent">>)
      [] n = "pre"  -> LET b == Below(m, op[3]) IN Out(S, <<"pre", b, b, b, b, b, b>>)
      [] n = "walk" -> IF HasKey(m, op[3])
                       THEN Out(S, <<"walk">> \o Tour(m, IndexOf(m, op[3]), op[4], op[5], op[6]) \o <<TRUE>>)
                       ELSE Out(S, <<"walk", "absent">>)
      [] n = "walkb" -> Out(S, <<"walk">> \o Tour(m, 1, op[3], op[4], op[5]) \o <<TRUE>>)
      [] n = "pwalk" -> LET b == Below(m, op[3]) IN
                        Out(S, <<"walk">> \o IF b = <<>> THEN <<"empty">> ELSE Tour(b, 1, op[4], op[5], op[6]) \o <<TRUE>>)
      [] n = "clear" -> Out(Set(S, k, Fresh), <<"ok">>)
      [] n \in {"copy", "asg", "pack", "sl"} -> Out(Set(S, op[3], c), <<"ok">>)
      [] n \in {"move", "masg"} -> Out(Move(S, k, op[3]), <<"ok">>)
      [] n = "mclr" -> Out(Set(Set(S, k, Fresh), op[3], c), <<"ok">>)
      [] n = "swap" -> Out(Set(Set(S, k, S[op[3] + 1]), op[3], c), <<"ok">>)
      [] n = "eq"   -> LET e == m = S[op[3] + 1].items IN Out(S, <<"eq", e, ~e>>)
      [] n = "eqn"  -> LET d == IF HasKey(m, op[3])
                                THEN Put(Del(m, op[3]), op[5], IF op[4] < 0 THEN At(m, op[3])[1][2] ELSE op[4]) ELSE m
                           e == d = m
                       IN Out(S, <<"eqn", e, e, ~e>>)
      [] n = "trunc" -> Out(S, <<"trunc", TRUE, TRUE>>) \* every truncation rejected, target unchanged
      [] n = "hdr"   -> Out(S, <<"hdr", TRUE>>)
      [] n = "xload" -> Out(S, <<"xload", TRUE, TRUE, TRUE>>)
      [] n = "end"   -> Out(S, <<"live", 0>>)
      [] OTHER       -> Out(S, <<"unknown call">>)
=============================================================================
