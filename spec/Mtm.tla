-------------------------------- MODULE Mtm --------------------------------
(* Specification of mdds::multi_type_matrix.  A matrix is its size and its    *)
(* elements in column-major order, each a pair <<type, value>>:               *)
(*   0 empty (value 0), 1 numeric (value = twice the number), 2 boolean,      *)
(*   3 string, 4 integer; integer values from 1000 on stand for integers at   *)
(*   the upper end of the range of the trait's integer type.                  *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC

NV == 3
Empty == <<0, 0>>
Unsupported == 5
Mat(r, c, f(_, _)) == [alive |-> TRUE, rows |-> r, cols |-> c,
                       cells |-> [i \in 1..(r * c) |-> f((i - 1) % r, (i - 1) \div r)]]
Dead == [alive |-> FALSE, rows |-> 0, cols |-> 0, cells |-> <<>>]
Zero == [Dead EXCEPT !.alive = TRUE]
At(m, r, c) == m.cells[c * m.rows + r + 1]
Inside(m, r, c) == r < m.rows /\ c < m.cols
Linear(m, r, c) == c * m.rows + r           \* 0-based
IsEmpty(m) == m.rows * m.cols = 0

(* the i-th (from 0) value of the series starting at v of type t *)
SeriesValue(t, v, i) == IF t = 4 /\ v >= 1000 THEN 1000 + ((v - 1000 + i) % NV)
                        ELSE IF t = 2 THEN ((v + i) % NV) % 2
                        ELSE (v + i) % NV
Series(t, v, n) == [i \in 1..n |-> <<t, SeriesValue(t, v, i - 1)>>]

(* overwrite the elements from linear position p on *)
Over(m, p, s) == [m EXCEPT !.cells = [i \in DOMAIN @ |-> IF i > p /\ i <= p + Len(s) THEN s[i - p] ELSE @[i]]]
Filled(n, x) == [i \in 1..n |-> x]
Resized(m, r, c, x) == IF r = 0 \/ c = 0 THEN Zero
                       ELSE LET F(i, j) == IF Inside(m, i, j) THEN At(m, i, j) ELSE x IN Mat(r, c, F)
Transposed(m) == LET F(i, j) == At(m, j, i) IN Mat(m.cols, m.rows, F)
CopiedFrom(m, s) == LET F(i, j) == IF Inside(s, i, j) THEN At(s, i, j) ELSE At(m, i, j) IN
                    IF IsEmpty(m) THEN m ELSE Mat(m.rows, m.cols, F)
CopiedArray(m, r, c, s) == LET F(i, j) == IF i < r /\ j < c THEN s[j * r + i + 1] ELSE At(m, i, j) IN Mat(m.rows, m.cols, F)

(* documented conversions; numeric values doubled *)
Big == 500000
Numeric2(x) == CASE x[1] = 1 -> x[2] [] x[1] = 2 -> 2 * x[2]
                 [] x[1] = 4 -> (IF x[2] >= 1000 THEN Big ELSE 2 * x[2]) [] OTHER -> 0
Trunc2(n) == IF n >= 0 THEN n \div 2 ELSE -((-n) \div 2)
AsInteger(x) == IF x[1] = 4 THEN x[2] ELSE Trunc2(Numeric2(x))
AsBoolean(x) == IF Numeric2(x) # 0 THEN 1 ELSE 0
IsNumericMatrix(m) == ~IsEmpty(m) /\ \A i \in DOMAIN m.cells : m.cells[i][1] \in {1, 2, 4}

(* the elements of a sub-matrix, in column-major order *)
Sub(m, r1, c1, r2, c2) == LET h == r2 - r1 + 1 IN
    [i \in 1..(h * (c2 - c1 + 1)) |-> At(m, r1 + ((i - 1) % h), c1 + ((i - 1) \div h))]

Set(S, k, c) == [S EXCEPT ![k + 1] = c]
Out(S, r) == [st |-> S, res |-> r]
Ok(S) == Out(S, <<"ok">>)
Throw(S, e) == Out(S, <<"thrown", e>>)

Apply(S, op) ==
    LET n == op[1]
        k == op[2]
        m == S[k + 1]
        a(i) == op[i + 2]
    IN
    CASE n = "new"  -> Ok(Set(S, k, IF a(1) < 0 THEN Zero ELSE LET F(i, j) == Empty IN Mat(a(1), a(2), F)))
      [] n = "newv" -> Ok(Set(S, k, LET F(i, j) == <<a(3), a(4)>> IN Mat(a(1), a(2), F)))
      [] n = "newr" -> IF a(1) * a(2) = 0 THEN Ok(Set(S, k, LET F(i, j) == Empty IN Mat(a(1), a(2), F)))   \* the array is not looked at
                       ELSE IF a(5) # a(1) * a(2) THEN Throw(S, "invalid_arg")
                       ELSE IF a(3) = Unsupported /\ a(5) > 0 THEN Throw(S, "type_error")
                       ELSE LET s == Series(a(3), a(4), a(5))
                                F(i, j) == s[j * a(1) + i + 1] IN Ok(Set(S, k, Mat(a(1), a(2), F)))
      [] n = "set"  -> Ok(Set(S, k, Over(m, Linear(m, a(1), a(2)), <<<<a(3), a(4)>>>>)))
      [] n = "setp" -> Out(Set(S, k, Over(m, Linear(m, a(1), a(2)), <<<<a(3), a(4)>>>>)), <<"at", <<a(1), a(2)>>>>)
      [] n = "sete" -> Ok(Set(S, k, Over(m, Linear(m, a(1), a(2)), <<Empty>>)))
      [] n = "setep" -> Out(Set(S, k, Over(m, Linear(m, a(1), a(2)), <<Empty>>)), <<"at", <<a(1), a(2)>>>>)
      [] n = "setel" -> IF a(3) = 0 THEN Throw(S, "general_error")
                        ELSE IF Linear(m, a(1), a(2)) + a(3) > Len(m.cells) THEN Throw(S, "out_of_range")
                        ELSE Ok(Set(S, k, Over(m, Linear(m, a(1), a(2)), Filled(a(3), Empty))))
      [] n = "setce" -> Ok(Set(S, k, Over(m, Linear(m, 0, a(1)), Filled(m.rows, Empty))))
      [] n = "setre" -> Ok(Set(S, k, LET F(i, j) == IF i = a(1) THEN Empty ELSE At(m, i, j) IN Mat(m.rows, m.cols, F)))
      [] n \in {"setr", "setpr"} ->
           IF Linear(m, a(1), a(2)) + a(5) > Len(m.cells) THEN Throw(S, "out_of_range")
           ELSE Out(Set(S, k, Over(m, Linear(m, a(1), a(2)), Series(a(3), a(4), a(5)))),
                    IF n = "setr" THEN <<"ok">> ELSE <<"at", <<a(1), a(2)>>>>)
      [] n = "setc" -> Ok(Set(S, k, Over(m, Linear(m, 0, a(1)), Series(a(2), a(3), IF a(4) <= m.rows THEN a(4) ELSE m.rows))))
      [] n = "res"  -> Ok(Set(S, k, Resized(m, a(1), a(2), Empty)))
      [] n = "resv" -> Ok(Set(S, k, Resized(m, a(1), a(2), <<a(3), a(4)>>)))
      [] n = "tr"   -> Out(Set(S, k, Transposed(m)), <<"self", TRUE>>)
      [] n = "cpy"  -> Ok(Set(S, k, CopiedFrom(m, S[a(1) + 1])))
      [] n = "cpya" -> IF a(5) = 0 \/ IsEmpty(m) THEN Ok(S)     \* nothing to copy, or nowhere to copy to
                       ELSE IF a(5) # a(1) * a(2) \/ a(1) > m.rows \/ a(2) > m.cols THEN Throw(S, "size_error")
                       ELSE IF a(3) = Unsupported THEN Throw(S, "type_error")
                       ELSE Ok(Set(S, k, CopiedArray(m, a(1), a(2), Series(a(3), a(4), a(5)))))
      [] n = "clear" -> Ok(Set(S, k, Zero))
      [] n = "swap" -> Ok(Set(Set(S, k, S[a(1) + 1]), a(1), m))
      [] n \in {"copy", "asg"} -> Ok(Set(S, a(1), m))
      [] n \in {"move", "masg"} -> Ok(Set(Set(S, a(1), m), k, IF a(2) = 1 THEN Zero ELSE Dead))
      [] n = "eq"   -> LET e == m = S[a(1) + 1] IN Out(S, <<"eq", e, e>>)
      [] n = "get"  -> LET x == At(m, a(1), a(2)) IN
                       Out(S, IF x[1] = a(3) THEN <<"value", x[2]>> ELSE IF x[1] = 0 THEN <<"value", 0>> ELSE <<"mismatch">>)
      [] n = "pos"  -> LET p == Linear(m, a(1), a(2)) + 1
                           last == p = Len(m.cells) IN
                       Out(S, <<"pos", <<a(1), a(2)>>, <<a(1), a(2)>>, At(m, a(1), a(2))[1], last, last,
                                IF last THEN <<>> ELSE <<p % m.rows, p \div m.rows>>>>)
      [] n = "scan" -> Out(S, <<"scan", [i \in 1..Len(m.cells) |-> <<(i - 1) % m.rows, (i - 1) \div m.rows>>]>>)
      (* walks: the elements to be visited; how they are cut into runs is judged in MtmConf *)
      [] n = "walk" -> Out(S, <<"walk", m.cells>>)
      [] n = "walks" -> IF a(3) < a(1) \/ a(4) < a(2) \/ a(3) >= m.rows \/ a(4) >= m.cols THEN Throw(S, "size_error")
                        ELSE Out(S, <<"walk", Sub(m, a(1), a(2), a(3), a(4))>>)
      [] n = "walk2" -> LET w == S[a(1) + 1] IN
                        IF m.rows # w.rows \/ m.cols # w.cols THEN Throw(S, "size_error")
                        ELSE Out(S, <<"walk2", m.cells, w.cells>>)
      [] n = "walk2s" -> LET w == S[a(1) + 1] IN
                         IF a(4) < a(2) \/ a(5) < a(3) \/ a(4) >= m.rows \/ a(5) >= m.cols \/ a(4) >= w.rows \/ a(5) >= w.cols
                         THEN Throw(S, "size_error")
                         ELSE Out(S, <<"walk2", Sub(m, a(2), a(3), a(4), a(5)), Sub(w, a(2), a(3), a(4), a(5))>>)
      [] n = "end"  -> Out(S, <<"live", 0>>)
      [] OTHER      -> Out(S, <<"unknown call">>)
=============================================================================
