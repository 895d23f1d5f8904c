------------------------------ MODULE SeqKeys ------------------------------
(* Keys that are sequences of letters, in lexicographic order, and finite     *)
(* maps over them kept as sequences of <<key, value>> in ascending order.     *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC

Min(a, b) == IF a <= b THEN a ELSE b
RECURSIVE LcpFrom(_, _, _)
LcpFrom(a, b, i) == IF i > Len(a) \/ i > Len(b) \/ a[i] # b[i] THEN i - 1 ELSE LcpFrom(a, b, i + 1)
Lcp(a, b) == LcpFrom(a, b, 1)
KLess(a, b) == LET n == Lcp(a, b) IN
               IF n = Len(a) THEN Len(b) > n
               ELSE IF n = Len(b) THEN FALSE ELSE a[n + 1] < b[n + 1]
HasPrefix(k, p) == Lcp(k, p) = Len(p)

Put(m, k, v) == SelectSeq(m, LAMBDA e : KLess(e[1], k)) \o << <<k, v>> >> \o SelectSeq(m, LAMBDA e : KLess(k, e[1]))
Del(m, k) == SelectSeq(m, LAMBDA e : e[1] # k)
At(m, k) == SelectSeq(m, LAMBDA e : e[1] = k)
HasKey(m, k) == \E i \in 1..Len(m) : m[i][1] = k
Below(m, p) == SelectSeq(m, LAMBDA e : HasPrefix(e[1], p))
Ascending(m) == \A i \in 1..(Len(m) - 1) : KLess(m[i][1], m[i + 1][1])

(* keys given by the driver as one number: base 5, digits 1..4 *)
RECURSIVE Enc(_)
Enc(k) == IF k = <<>> THEN 0 ELSE Enc(SubSeq(k, 1, Len(k) - 1)) * 5 + k[Len(k)] + 1
RECURSIVE KeysUpTo(_, _)
KeysUpTo(letters, n) == IF n = 0 THEN {<<>>}
                        ELSE LET s == KeysUpTo(letters, n - 1) IN s \cup {Append(k, x) : k \in s, x \in 0..(letters - 1)}
=============================================================================
