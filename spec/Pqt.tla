-------------------------------- MODULE Pqt --------------------------------
(* Specification of mdds::point_quad_tree: a finite map from points to        *)
(* values, kept as a sequence of <<x, y, value>> sorted by (x, y).            *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC

Dead == [alive |-> FALSE, pts |-> <<>>]
Fresh == [alive |-> TRUE, pts |-> <<>>]

Less(a, b) == a[1] < b[1] \/ (a[1] = b[1] /\ a[2] < b[2])
SamePoint(a, b) == a[1] = b[1] /\ a[2] = b[2]
Without(s, x) == SelectSeq(s, LAMBDA p : ~SamePoint(p, x))
Put(s, x) == SelectSeq(s, LAMBDA p : Less(p, x)) \o <<x>> \o SelectSeq(s, LAMBDA p : Less(x, p))
Get(s, x) == SelectSeq(s, LAMBDA p : SamePoint(p, x))
In(s, x1, y1, x2, y2) == SelectSeq(s, LAMBDA p : x1 <= p[1] /\ p[1] <= x2 /\ y1 <= p[2] /\ p[2] <= y2)
RECURSIVE AddSorted(_, _)
AddSorted(s, v) == SelectSeq(s, LAMBDA w : w <= v) \o <<v>> \o SelectSeq(s, LAMBDA w : w > v)
RECURSIVE SortedValues(_)
SortedValues(s) == IF s = <<>> THEN <<>> ELSE AddSorted(SortedValues(Tail(s)), Head(s)[3])

Set(S, k, c) == [S EXCEPT ![k + 1] = c]
Out(S, r) == [st |-> S, res |-> r]

Apply(S, op) ==
    LET n == op[1]
        k == op[2]
        c == S[k + 1]
    IN
    CASE n = "new"   -> Out(Set(S, k, Fresh), <<"ok">>)
      [] n = "ins"   -> Out(Set(S, k, [c EXCEPT !.pts = Put(@, <<op[3], op[4], op[5]>>)]), <<"ok">>)
      [] n = "rem"   -> Out(Set(S, k, [c EXCEPT !.pts = Without(@, <<op[3], op[4]>>)]), <<"ok">>)
      [] n = "find"  -> LET f == Get(c.pts, <<op[3], op[4]>>) IN
                        Out(S, IF f = <<>> THEN <<"absent">> ELSE <<"found", f[1][3]>>)
      [] n = "search" -> LET f == In(c.pts, op[3], op[4], op[5], op[6]) IN
                         Out(S, <<"search", f, f, SortedValues(f)>>)
      [] n = "clear" -> Out(Set(S, k, Fresh), <<"ok">>)
      [] n \in {"copy", "asg"} -> Out(Set(S, op[3], c), <<"ok">>)
      [] n = "swap"  -> Out(Set(Set(S, k, S[op[3] + 1]), op[3], c), <<"ok">>)
      [] n = "eq"    -> LET e == c.pts = S[op[3] + 1].pts IN Out(S, <<"eq", e, ~e>>)
      [] n = "end"   -> Out(S, <<"live", 0>>)
      [] OTHER       -> Out(S, <<"unknown call">>)
=============================================================================
