------------------------------- MODULE Rtree -------------------------------
(* Specification of mdds::rtree.  A container holds a bag of objects, each a  *)
(* box and a value: here a sorted sequence of <<start.., end.., value>>.      *)
(* Where one of several matching objects may be meant (erase or write through *)
(* a search result), the choice is the implementation's: the result of the    *)
(* call names the object (parameter `got`).                                   *)
(*                                                                            *)
(* The tree that indexes the bag is not determined by it, only constrained:   *)
(* see WellFormed.  A node is <<type, parent link right, box, children>>,     *)
(* type 1 = directory of directories, 2 = directory of values, 3 = value.     *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC

Dead == [alive |-> FALSE, objs |-> <<>>]
Fresh == [alive |-> TRUE, objs |-> <<>>]

(* ------------------------------------------------------------ boxes, D dims *)
RECURSIVE LexLess(_, _, _)
LexLess(a, b, i) == IF i > Len(a) THEN FALSE
                    ELSE IF a[i] # b[i] THEN a[i] < b[i] ELSE LexLess(a, b, i + 1)
Less(a, b) == LexLess(a, b, 1)
Intersects(x, y, D) == \A d \in 1..D : x[d] <= y[D + d] /\ y[d] <= x[D + d]
Contains(x, y, D) == \A d \in 1..D : x[d] <= y[d] /\ y[D + d] <= x[D + d]
PointBox(p, D) == [i \in 1..(2 * D) |-> IF i <= D THEN p[i] ELSE p[i - D]]
Box(o, D) == SubSeq(o, 1, 2 * D)
Min2(a, b) == IF a < b THEN a ELSE b
Max2(a, b) == IF a > b THEN a ELSE b
Join(x, y, D) == [j \in 1..(2 * D) |-> IF j <= D THEN Min2(x[j], y[j]) ELSE Max2(x[j], y[j])]
RECURSIVE HullOf(_, _, _, _)
HullOf(s, i, j, D) == IF i = j THEN Box(s[i], D)
                      ELSE LET m == (i + j) \div 2 IN Join(HullOf(s, i, m, D), HullOf(s, m + 1, j, D), D)
(* smallest box around a sequence of boxes (or objects); nothing: all zero    *)
Hull(s, D) == IF s = <<>> THEN [i \in 1..(2 * D) |-> 0] ELSE HullOf(s, 1, Len(s), D)

(* ------------------------------------------------------------------- bags *)
Put(s, x) == SelectSeq(s, LAMBDA p : ~Less(x, p)) \o <<x>> \o SelectSeq(s, LAMBDA p : Less(x, p))
RECURSIVE Merge(_, _)
(* both sorted: split the longer at its middle element *)
Merge(a, b) ==
    IF a = <<>> THEN b ELSE IF b = <<>> THEN a
    ELSE IF Len(a) < Len(b) THEN Merge(b, a)
    ELSE LET m == (Len(a) + 1) \div 2
             x == a[m]
             bl == SelectSeq(b, LAMBDA p : Less(p, x))
             br == SelectSeq(b, LAMBDA p : ~Less(p, x))
         IN  Merge(SubSeq(a, 1, m - 1), bl) \o <<x>> \o Merge(SubSeq(a, m + 1, Len(a)), br)
RECURSIVE Sorted(_)
Sorted(s) == IF Len(s) <= 1 THEN s
             ELSE LET m == Len(s) \div 2 IN Merge(Sorted(SubSeq(s, 1, m)), Sorted(SubSeq(s, m + 1, Len(s))))
PutAll(s, xs) == Merge(s, Sorted(xs))
In(s, x) == \E i \in 1..Len(s) : s[i] = x
DropOne(s, x) == LET i == CHOOSE j \in 1..Len(s) : s[j] = x
                 IN  SubSeq(s, 1, i - 1) \o SubSeq(s, i + 1, Len(s))

(* ------------------------------------------------- objects made in batches *)
Step(x) == ((x * 75) + 74) % 65537
RECURSIVE GenBox(_, _, _, _, _, _, _)
GenBox(x, d, D, kind, span, lo, hi) ==
    IF d > D THEN <<x, lo \o hi>> ELSE
    LET x1 == Step(x)
        a == IF kind = 3 THEN 1 ELSE (x1 % span) - 2
        x2 == IF kind \in {0, 2} THEN Step(x1) ELSE x1
        b == CASE kind = 0 -> (x2 % span) - 2
               [] kind = 1 -> a
               [] kind = 2 -> a + (x2 % 3)
               [] OTHER -> 4
    IN  GenBox(x2, d + 1, D, kind, span, Append(lo, Min2(a, b)), Append(hi, Max2(a, b)))
RECURSIVE GenObjs(_, _, _, _, _, _, _)
GenObjs(acc, n, x, D, kind, span, nv) ==
    IF n = 0 THEN acc ELSE
    LET g == GenBox(x, 1, D, kind, span, <<>>, <<>>)
        x3 == Step(g[1])
    IN  GenObjs(Append(acc, g[2] \o <<x3 % nv>>), n - 1, x3, D, kind, span, nv)

(* ---------------------------------------------------------------- searches *)
(* kind: +1 exact match instead of overlap, +2 point query, +4 const form     *)
Query(kind, args, D) == IF (kind \div 2) % 2 = 1 THEN PointBox(SubSeq(args, 1, D), D) ELSE SubSeq(args, 1, 2 * D)
Matches(o, kind, q, D) == IF kind % 2 = 1 THEN Box(o, D) = q ELSE Intersects(o, q, D)
Found(objs, kind, q, D) == SelectSeq(objs, LAMBDA o : Matches(o, kind, q, D))

(* -------------------------------------------------------------- the index *)
Kids(n) == n[4]
RECURSIVE Nodes(_)
RECURSIVE NodesOf(_, _)
NodesOf(c, i) == IF i > Len(c) THEN 0 ELSE Nodes(c[i]) + NodesOf(c, i + 1)
Nodes(n) == 1 + NodesOf(Kids(n), 1)
RECURSIVE Points(_)
RECURSIVE PointsOf(_, _, _)
PointsOf(c, i, D) == IF i > Len(c) THEN 0 ELSE Points(<<c[i], D>>) + PointsOf(c, i + 1, D)
Points(nd) == LET n == nd[1] IN
    (IF \A d \in 1..nd[2] : n[3][d] = n[3][nd[2] + d] THEN 1 ELSE 0) + PointsOf(Kids(n), 1, nd[2])
(* directory levels above the values *)
RECURSIVE Height(_)
Height(n) == IF n[1] = 3 THEN 0 ELSE IF Kids(n) = <<>> THEN 1 ELSE 1 + Height(Kids(n)[1])
RECURSIVE Leaves(_)
RECURSIVE LeavesOf(_, _)
LeavesOf(c, i) == IF i > Len(c) THEN <<>> ELSE Leaves(c[i]) \o LeavesOf(c, i + 1)
Leaves(n) == IF n[1] = 3 THEN <<n[3]>> ELSE LeavesOf(Kids(n), 1)

(* what makes a subtree of height h a right one, "" or what is wrong with it  *)
RECURSIVE NodeWrong(_, _, _, _, _)
RECURSIVE KidsWrong(_, _, _, _, _)
KidsWrong(c, i, h, D, max) ==
    IF i > Len(c) THEN "" ELSE
    LET w == NodeWrong(c[i], FALSE, h, D, max) IN IF w = "" THEN KidsWrong(c, i + 1, h, D, max) ELSE w
NodeWrong(n, root, h, D, max) ==
    IF ~n[2] THEN "a node's parent link is wrong"
    ELSE IF n[1] # (IF h = 0 THEN 3 ELSE IF h = 1 THEN 2 ELSE 1) THEN "the values are not all at one depth"
    ELSE IF h = 0 THEN (IF Kids(n) = <<>> THEN "" ELSE "a value has children")
    ELSE IF Len(Kids(n)) > max THEN "a node holds more children than the maximum"
    ELSE IF Kids(n) = <<>> /\ ~(root /\ h = 1) THEN "a directory is empty"
    ELSE IF n[3] # Hull([i \in 1..Len(Kids(n)) |-> Kids(n)[i][3]], D) THEN "a node's box is not the smallest box around its children"
    ELSE KidsWrong(Kids(n), 1, h - 1, D, max)
RECURSIVE MinOk(_, _, _)
MinOk(n, root, min) ==
    \/ n[1] = 3
    \/ /\ root \/ Len(Kids(n)) >= min
       /\ \A i \in 1..Len(Kids(n)) : MinOk(Kids(n)[i], FALSE, min)
BoxesOf(objs, D) == [i \in 1..Len(objs) |-> Box(objs[i], D)]
TreeWrong(t, objs, D, max) ==
    LET w == NodeWrong(t, TRUE, Height(t), D, max) IN
    IF w # "" THEN w
    ELSE IF PutAll(<<>>, Leaves(t)) # BoxesOf(objs, D) THEN "the tree does not hold exactly the stored objects"
    ELSE ""

(* ------------------------------------------------------------------ calls *)
Set(S, k, c) == [S EXCEPT ![k + 1] = c]
Out(S, r) == [st |-> S, res |-> r]
WithDepth(s, h) == [i \in 1..Len(s) |-> Append(s[i], h)]
BoxArgs(op, i) == SubSeq(op, i, Len(op))

(* the calls whose effect is determined; t = the index before the call        *)
Apply(S, op, D, t, min) ==
    LET n == op[1]
        k == op[2]
        c == S[k + 1]
    IN
    CASE n = "new"   -> Out(Set(S, k, Fresh), <<"ok">>)
      [] n = "ins"   -> Out(Set(S, k, [c EXCEPT !.objs = Put(@, BoxArgs(op, 4))]), <<"ok">>)
      [] n = "insn"  -> Out(Set(S, k, [c EXCEPT !.objs = PutAll(@, GenObjs(<<>>, op[3], op[4], D, op[5], op[6], op[7]))]), <<"ok">>)
      [] n = "bulk"  -> Out(Set(S, k, [Fresh EXCEPT !.objs = PutAll(<<>>, GenObjs(<<>>, op[3], op[4], D, op[5], op[6], op[7]))]),
                            IF op[8] = 2 THEN <<"ok", 0, TRUE>> ELSE <<"ok">>)
      [] n = "search" -> LET f == Found(c.objs, op[3], Query(op[3], BoxArgs(op, 4), D), D) IN
                         Out(S, <<"search", WithDepth(f, Height(t)), TRUE, Len(f)>>)
      [] n = "clear" -> Out(Set(S, k, Fresh), <<"ok">>)
      [] n \in {"copy", "asg"} -> Out(Set(S, op[3], c), <<"ok">>)
      [] n = "move"  -> Out(Set(Set(S, k, Fresh), op[3], c), <<"ok">>)
      [] n = "masg"  -> Out(IF k = op[3] THEN S ELSE Set(Set(S, k, Fresh), op[3], c), <<"ok">>)
      [] n = "swap"  -> Out(Set(Set(S, k, S[op[3] + 1]), op[3], c), <<"ok">>)
      [] n = "chk"   -> LET m == MinOk(t, TRUE, min) IN Out(S, <<"chk", TRUE, TRUE, m, m>>)
      [] n = "exp"   -> Out(S, IF D # 2 THEN <<"size-error">> ELSE
                               IF op[3] = 0 THEN <<"obj", Nodes(t), 4 * Nodes(t), Nodes(t)>>
                               ELSE LET p == PointsOf(Kids(t), 1, D) IN <<"svg", Nodes(t) - 1 - p, p>>)
      [] n = "geo"   -> LET x == SubSeq(op, 3, 2 + 2 * D)
                            y == SubSeq(op, 3 + 2 * D, 2 + 4 * D)
                        IN  Out(S, <<"geo", Contains(x, PointBox(y, D), D), Contains(x, y, D), Intersects(x, y, D),
                                     Intersects(x, y, D), x = y, \A d \in 1..D : x[d] = x[D + d]>>)
      [] n = "ptil"  -> Out(S, IF op[3] > D THEN <<"range-error">>
                               ELSE <<"pt">> \o [i \in 1..D |-> IF i <= op[3] THEN 4 + i ELSE 0])
      [] OTHER       -> Out(S, <<"unknown call">>)

(* the calls that leave a choice: the set of (result, state) pairs            *)
Candidates(c, op, D) ==
    CASE op[1] = "era" -> Found(c.objs, op[3], Query(op[3], BoxArgs(op, 5), D), D)
      [] op[1] = "upd" -> Found(c.objs, op[3], Query(op[3], BoxArgs(op, 6), D), D)
      [] OTHER -> c.objs
Choosing == {"era", "upd", "eran"}
Erased(S, k, x) == Set(S, k, [S[k + 1] EXCEPT !.objs = DropOne(@, x)])
Written(S, k, x, v) == Set(S, k, [S[k + 1] EXCEPT !.objs = Put(DropOne(@, x), SubSeq(x, 1, Len(x) - 1) \o <<v>>)])
RECURSIVE EraseAll(_, _, _, _)
(* removing xs one after the other; <<>> when one of them is not there        *)
EraseAll(S, k, xs, i) == IF i > Len(xs) THEN <<S>>
                         ELSE IF ~In(S[k + 1].objs, xs[i]) THEN <<>>
                         ELSE EraseAll(Erased(S, k, xs[i]), k, xs, i + 1)
(* the state after the call given its result, or <<>> if no such step exists  *)
Resolve(S, op, res, D) ==
    LET k == op[2]
        cand == Candidates(S[k + 1], op, D)
    IN
    CASE op[1] \in {"era", "upd"} ->
            IF cand = <<>> THEN (IF ToString(res) = ToString(<<"none">>) THEN <<S>> ELSE <<>>)
            ELSE IF Len(res) # 2 THEN <<>>
            ELSE IF op[1] = "era" THEN (IF res[1] = "erased" /\ In(cand, res[2]) THEN <<Erased(S, k, res[2])>> ELSE <<>>)
            ELSE (IF res[1] = "updated" /\ In(cand, res[2]) THEN <<Written(S, k, res[2], op[5])>> ELSE <<>>)
      [] op[1] = "eran" ->
            IF Len(res) # 2 THEN <<>>
            ELSE IF res[1] # "erased" \/ Len(res[2]) # Min2(op[3], Len(S[k + 1].objs)) THEN <<>>
            ELSE EraseAll(S, k, res[2], 1)
      [] OTHER -> <<>>
=============================================================================
