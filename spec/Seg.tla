-------------------------------- MODULE Seg --------------------------------
(* Specification of mdds::segment_tree.                                       *)
(*                                                                            *)
(* State of one tree: the bag of stored segments <<start, end, value>>, kept  *)
(* as a sequence sorted lexicographically, and whether the search tree is     *)
(* valid.  A state of the system is a sequence of slots.                      *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC

Dead == [alive |-> FALSE, segs |-> <<>>, valid |-> FALSE]
Fresh == [alive |-> TRUE, segs |-> <<>>, valid |-> FALSE]

Leq(a, b) == \/ a[1] < b[1]
             \/ a[1] = b[1] /\ a[2] < b[2]
             \/ a[1] = b[1] /\ a[2] = b[2] /\ a[3] <= b[3]
(* insertion into a sorted bag *)
Add(s, x) == LET before == SelectSeq(s, LAMBDA y : Leq(y, x)) IN
             before \o <<x>> \o SubSeq(s, Len(before) + 1, Len(s))
Count(s, x) == Cardinality({i \in 1..Len(s) : s[i] = x})
IndexOf(s, x) == CHOOSE i \in 1..Len(s) : s[i] = x
RemoveOne(s, x) == LET i == IndexOf(s, x) IN SubSeq(s, 1, i - 1) \o SubSeq(s, i + 1, Len(s))
Contains(x, p) == x[1] <= p /\ p < x[2]
At(s, p) == SelectSeq(s, LAMBDA x : Contains(x, p))

RECURSIVE SortedKeys(_)
SortedKeys(K) == IF K = {} THEN <<>>
                 ELSE LET m == CHOOSE x \in K : \A y \in K : x <= y IN <<m>> \o SortedKeys(K \ {m})
BoundaryKeys(s) == SortedKeys({s[i][1] : i \in 1..Len(s)} \cup {s[i][2] : i \in 1..Len(s)})

Matches(kind, x, seg) ==
    CASE kind = 0 -> seg[3] = x
      [] kind = 1 -> Contains(seg, x)
      [] kind = 2 -> seg[1] = x
      [] kind = 3 -> seg[2] = x
      [] OTHER -> TRUE

(* what a point search finds *)
Found(c, p) == IF c.valid THEN At(c.segs, p) ELSE <<>>

Set(S, k, c) == [S EXCEPT ![k + 1] = c]
Out(S, r, lax) == [st |-> S, res |-> r, lax |-> lax]

(* Apply(S, op, hint): op = <<name, slot, args...>>.  hint is the observed    *)
(* result; it only resolves which of several results an iterator denotes (the *)
(* order of search results is not specified).  The validity flag of slots in  *)
(* lax is unspecified when they store nothing.                                *)
Apply(S, op, hint) ==
    LET n == op[1]
        k == op[2]
        c == S[k + 1]
    IN
    CASE n = "new"   -> Out(Set(S, k, Fresh), <<"ok">>, {})
      [] n = "ins"   -> IF op[3] < op[4]
                        THEN Out(Set(S, k, [c EXCEPT !.segs = Add(c.segs, <<op[3], op[4], op[5]>>), !.valid = FALSE]), <<"ok">>, {})
                        ELSE Out(S, <<"rejected">>, {})
      [] n = "build" -> Out(Set(S, k, [c EXCEPT !.valid = (c.segs # <<>>)]), <<"ok">>, {})
      [] n = "search" -> LET f == Found(c, op[3]) IN
                         Out(S, <<"search", Len(f), f = <<>>, f, f, TRUE>>, {})
      [] n = "erit"  -> LET f == Found(c, op[3]) IN
                        IF op[4] >= Len(f) THEN Out(S, <<"erit", FALSE>>, {})
                        ELSE LET x == IF Len(hint) >= 3 /\ \E i \in 1..Len(f) : f[i] = hint[3] THEN hint[3] ELSE f[1]
                                 g == RemoveOne(f, x)
                             IN  Out(Set(S, k, [c EXCEPT !.segs = RemoveOne(c.segs, x)]),
                                     <<"erit", TRUE, x, Len(g), g = <<>>, g, g>>, {})
      [] n = "erif"  -> LET g == SelectSeq(c.segs, LAMBDA x : ~Matches(op[3], op[4], x)) IN
                        Out(Set(S, k, [c EXCEPT !.segs = g]), <<"erif", Len(c.segs) - Len(g), Len(c.segs)>>, {})
      [] n = "clear" -> Out(Set(S, k, Fresh), <<"ok">>, {})
      [] n \in {"copy", "asg"} -> Out(Set(S, op[3], c), <<"ok">>, {op[3]})
      [] n \in {"move", "masg"} -> Out(IF op[3] = k THEN S ELSE Set(Set(S, k, Dead), op[3], c), <<"ok">>, {})
      [] n = "moveclr" -> Out(Set(Set(S, k, Fresh), op[3], c), <<"ok">>, {})
      [] n = "swap"  -> Out(Set(Set(S, k, S[op[3] + 1]), op[3], c), <<"ok">>, {})
      [] n = "eq"    -> LET e == c.segs = S[op[3] + 1].segs /\ c.valid = S[op[3] + 1].valid IN Out(S, <<"eq", e, ~e>>, {})
      [] n = "end"   -> Out(S, <<"live", 0>>, {})
      [] OTHER       -> Out(S, <<"unknown call">>, {})
=============================================================================
