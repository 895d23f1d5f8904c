-------------------------------- MODULE Mtv --------------------------------
(* Specification of mdds::multi_type_vector (both storage layouts, managed    *)
(* and unmanaged element blocks, copy-on-write).                              *)
(*                                                                            *)
(* A container is a sequence of cells.  A cell is one number                  *)
(*     id * 1000 + type * 10 + value          0 is an empty cell              *)
(* where id identifies the heap object a managed cell refers to (0 for plain  *)
(* values).  Types below 20 are plain, 20 and 21 managed and copyable, 22 and *)
(* 24 managed, not copyable but clonable, 23 managed and not clonable; type 3 *)
(* is boolean.                                                                *)
(*                                                                            *)
(* State: s     sequence of slots [alive, c, own, shr]                        *)
(*                 own: the container is surely the sole owner of its blocks  *)
(*                 shr: it visibly shares an element block with another slot  *)
(*        nid   the id the next object gets                                   *)
(*        cow   copy-on-write enabled                                         *)
(*        ty    the element types of this instantiation                       *)
(* Steps(S, op) is the set of allowed outcomes [s |-> slots, r |-> result].   *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC

Type(c) == (c \div 10) % 100
Id(c) == c \div 1000
Val(c) == c % 1000                 \* type and value
Managed(t) == t >= 20
NoCopy(t) == t \in {22, 23, 24}
NoClone(t) == t = 23
FRESH == 60000                     \* id of an object made by the call, not determined further
Norm(t, v) == IF t = 3 THEN v % 2 ELSE v % 10
Mk(t, v, id) == (IF Managed(t) THEN id * 1000 ELSE 0) + t * 10 + Norm(t, v)
Run(t, v, n, id) == [i \in 1..n |-> Mk(t, v + i - 1, id + i - 1)]
Nothing(n) == [i \in 1..n |-> 0]
Vals(c) == [i \in 1..Len(c) |-> Val(c[i])]

Dead == [alive |-> FALSE, c |-> <<>>]
Slot(c) == [alive |-> TRUE, c |-> c]

(* the block holding position p (0-based): maximal run of cells of one type *)
BlockStart(c, p) == CHOOSE i \in 0..p : /\ \A q \in i..p : Type(c[q + 1]) = Type(c[p + 1])
                                        /\ i > 0 => Type(c[i]) # Type(c[p + 1])
BlockEnd(c, p) == CHOOSE i \in p..(Len(c) - 1) : /\ \A q \in p..i : Type(c[q + 1]) = Type(c[p + 1])
                                                 /\ i < Len(c) - 1 => Type(c[i + 2]) # Type(c[p + 1])
IsRuns(b, c) ==
    /\ (b = <<>>) = (c = <<>>)
    /\ \A j \in 1..Len(b) : /\ b[j][3] > 0
                            /\ b[j][2] = (IF j = 1 THEN 0 ELSE b[j - 1][2] + b[j - 1][3])
                            /\ j > 1 => b[j][1] # b[j - 1][1]
                            /\ b[j][2] + b[j][3] <= Len(c)
                            /\ \A q \in (b[j][2] + 1)..(b[j][2] + b[j][3]) : Type(c[q]) = b[j][1]
    /\ b # <<>> => b[Len(b)][2] + b[Len(b)][3] = Len(c)
(* iterator to the block holding p, with the claim that it walks both ways *)
It(c, p) == <<"it", BlockStart(c, p), BlockEnd(c, p) - BlockStart(c, p) + 1, Type(c[p + 1]), TRUE>>
End == <<"end", TRUE>>

Ids(c) == {Id(c[i]) : i \in 1..Len(c)} \ {0}
RECURSIVE Sorted(_)
Sorted(X) == IF X = {} THEN <<>> ELSE LET m == CHOOSE x \in X : \A y \in X : x <= y IN <<m>> \o Sorted(X \ {m})
Has(c, P(_)) == \E i \in 1..Len(c) : P(Type(c[i]))
(* duplicate content: managed cells refer to new objects *)
Dup(c) == [i \in 1..Len(c) |-> IF Managed(Type(c[i])) THEN FRESH * 1000 + Val(c[i]) ELSE c[i]]
NObj(c) == Cardinality({i \in 1..Len(c) : Managed(Type(c[i]))})
(* those whose duplication may be made to fail: under an execution policy a failure terminates *)
NFail(c) == Cardinality({i \in 1..Len(c) : Managed(Type(c[i])) /\ Type(c[i]) # 24})

Splice(c, p, x) == SubSeq(c, 1, p) \o x \o SubSeq(c, p + 1, Len(c))          \* insert before p
Over(c, p, x) == SubSeq(c, 1, p) \o x \o SubSeq(c, p + Len(x) + 1, Len(c))   \* overwrite from p
Cut(c, a, b) == SubSeq(c, 1, a) \o SubSeq(c, b + 2, Len(c))                  \* remove a..b
Part(c, a, b) == SubSeq(c, a + 1, b + 1)

RECURSIVE FillFrom(_, _, _, _, _, _, _)
FillFrom(ty, i, n, v, e, id, q) ==   \* q: index into ty, Len(ty)+1 = the empty cell of a round
    IF i >= n THEN <<>>
    ELSE IF q > Len(ty) THEN (IF e # 0 THEN <<0>> ELSE <<>>) \o FillFrom(ty, i + (IF e # 0 THEN 1 ELSE 0), n, v, e, id, 1)
    ELSE <<Mk(ty[q], v + i, id)>> \o FillFrom(ty, i + 1, n, v, e, id + (IF Managed(ty[q]) THEN 1 ELSE 0), q + 1)

(* which cloning object made which cell: one object per block, in order *)
Cloners(c) ==
    LET P == {i \in 1..Len(c) : Type(c[i]) = 22}
        starts == {BlockStart(c, i - 1) : i \in P}
        Rank(x) == Cardinality({y \in starts : y < x})
        seq == Sorted(P)
    IN [n \in 1..Len(seq) |-> LET i == seq[n] st == BlockStart(c, i - 1) IN <<i - 1, Rank(st), i - 1 - st>>]

(* side-by-side iteration: the slots named by the base-4 digits of sel *)
RECURSIVE Selected(_)
Selected(sel) == IF sel = 0 THEN <<>> ELSE <<sel % 4>> \o Selected(sel \div 4)
Collection(s, sel, form, a, n, c, m) ==
    LET mem == Selected(sel)
        len == Len(s[mem[1]].c)
        ok == len > 0 /\ \A i \in 1..Len(mem) : Len(s[mem[i]].c) = len
        Fits(st, cnt, top) == cnt > 0 /\ st < top /\ st + cnt <= top
        e == n >= 0 /\ Fits(a, n, len)
        k == m >= 0 /\ Fits(c, m, Len(mem))
        e0 == IF e THEN a ELSE 0
        en == IF e THEN n ELSE len
        k0 == IF k THEN c ELSE 0
        kn == IF k THEN m ELSE Len(mem)
        At(q) == LET pos == e0 + ((q - 1) \div kn)  i == k0 + ((q - 1) % kn) IN <<i, pos, s[mem[i + 1]].c[pos + 1]>>
    IN IF ~ok THEN <<"invalid">>
       ELSE <<"col", len, (IF e THEN "e" ELSE "") \o (IF k THEN "c" ELSE ""), TRUE, [q \in 1..(en * kn) |-> At(q)], TRUE>>

Set(s, k, x) == [s EXCEPT ![k + 1] = x]
Set2(s, k, x, j, y) == Set(Set(s, k, x), j, y)

(* outcomes of a duplication of slot k into slot j, failing at the n-th element (n < 0: not failing);
   extra: what the result of a failed call carries; self: assignment to itself may also do nothing *)
Duplicate(S, k, j, copy, n, extra, okres, mayskip) ==
    LET s == S.s  c == s[k + 1].c
        refuse == IF copy THEN Has(c, NoCopy) ELSE Has(c, NoClone)
        m == NFail(c)
        good == [s |-> Set(s, j, Slot(Dup(c))), r |-> okres]
        same == [s |-> s, r |-> okres]
        ebe == [s |-> s, r |-> <<"ebe">> \o extra]
        boom == [s |-> s, r |-> <<"boom">> \o extra]
    IN (IF refuse
        THEN {ebe} \cup (IF n >= 0 /\ n < m THEN {boom} ELSE {})
             \* under copy-on-write cloning is deferred
             \cup (IF S.cow /\ ~copy THEN {good} ELSE {})
        ELSE IF n >= 0 /\ n < m THEN {boom} \cup (IF S.cow THEN {good} ELSE {})
        ELSE {good})
       \cup (IF mayskip THEN {same} ELSE {})

Steps(S, op) ==
    LET n == op[1]
        k == op[2]
        s == S.s
        c == s[k + 1].c
        z == Len(c)
        X == op[Len(op)]
        only(ns, r) == {[s |-> ns, r |-> r]}
        keep(r) == only(s, r)
        put(c2, r) == only(Set(s, k, Slot(c2)), r)
        oor == keep(<<"oor">>)
        shared == keep(<<"shared">>)
        (* giving objects away is refused while blocks are shared *)
        away(steps) == IF ~S.cow \/ s[k + 1].own THEN steps
                       ELSE IF s[k + 1].shr THEN shared ELSE steps \cup shared
    IN
    CASE n = "new" ->
            LET f == op[3] len == op[4] t == op[5] v == op[6] IN
            IF f \in 0..2 THEN put(<<>>, <<"ok">>)
            ELSE IF f = 3 THEN put(Nothing(len), <<"ok">>)
            ELSE IF f = 4 THEN put([i \in 1..len |-> Mk(t, v, S.nid)], <<"ok">>)
            ELSE IF f = 5 THEN put(Run(t, v, len, S.nid), <<"ok">>)
            ELSE keep(<<"invalid">>)
      [] n = "set" -> IF op[3] < z THEN LET c2 == Over(c, op[3], <<Mk(op[4], op[5], S.nid)>>) IN put(c2, It(c2, op[3])) ELSE oor
      [] n = "setr" -> LET p == op[3] len == op[6] IN
            IF len = 0 THEN keep(End) \cup (IF p >= z THEN oor ELSE {})
            ELSE IF p + len <= z THEN LET c2 == Over(c, p, Run(op[4], op[5], len, S.nid)) IN put(c2, It(c2, p)) ELSE oor
      [] n \in {"push", "emp"} -> LET c2 == Append(c, Mk(op[3], op[4], S.nid)) IN put(c2, It(c2, z))
      [] n = "pushe" -> LET c2 == Append(c, 0) IN put(c2, It(c2, z))
      [] n = "fill" -> put(c \o FillFrom(S.ty, 0, op[3], op[4], op[5], S.nid, 1), <<"ok">>)
      [] n = "ins" -> LET p == op[3] len == op[6] IN
            IF p >= z THEN oor \cup (IF len = 0 THEN keep(End) ELSE {})
            ELSE IF len = 0 THEN keep(End)
            ELSE LET c2 == Splice(c, p, Run(op[4], op[5], len, S.nid)) IN put(c2, It(c2, p))
      [] n = "inse" -> LET p == op[3] len == op[4] IN
            IF p >= z THEN oor \cup (IF len = 0 THEN keep(End) ELSE {})
            ELSE IF len = 0 THEN keep(End)
            ELSE LET c2 == Splice(c, p, Nothing(len)) IN put(c2, It(c2, p))
      [] n = "sete" -> LET a == op[3] b == op[4] IN
            IF a <= b /\ b < z THEN LET c2 == Over(c, a, Nothing(b - a + 1)) IN put(c2, It(c2, a)) ELSE oor
      [] n = "era" -> LET a == op[3] b == op[4] IN IF a <= b /\ b < z THEN put(Cut(c, a, b), <<"ok">>) ELSE oor
      [] n = "clear" -> put(<<>>, <<"ok">>)
      [] n = "res" -> put(IF op[3] <= z THEN SubSeq(c, 1, op[3]) ELSE c \o Nothing(op[3] - z), <<"ok">>)
      [] n \in {"shrink", "det"} -> keep(<<"ok">>) \cup (IF S.cow /\ ~s[k + 1].own /\ Has(c, NoClone) THEN keep(<<"ebe">>) ELSE {})
      [] n = "rel" -> LET p == op[3] IN
            IF p >= z THEN oor \cup (IF S.cow /\ ~s[k + 1].own THEN shared ELSE {})
            ELSE LET x == c[p + 1] c2 == Over(c, p, <<0>>) IN
                 away(put(c2, <<"rel", x>> \o (IF op[4] = 0 THEN <<>> ELSE It(c2, p)) \o <<Sorted({Id(x)} \ {0})>>))
      [] n = "rela" -> away(put(<<>>, <<"rel", Sorted(Ids(c))>>))
      [] n = "relr" -> LET a == op[3] b == op[4] IN
            IF a <= b /\ b < z
            THEN LET c2 == Over(c, a, Nothing(b - a + 1)) IN
                 away(put(c2, <<"rel">> \o It(c2, a) \o <<Sorted(Ids(Part(c, a, b)))>>))
            ELSE oor \cup (IF S.cow /\ ~s[k + 1].own THEN shared ELSE {})
      [] n = "tra" -> LET a == op[3] b == op[4] j == op[5] d == op[6] e == s[j + 1].c
                          fits == a <= b /\ b < z /\ d + b - a < Len(e) IN
            IF j = k THEN keep(<<"invalid">>) \cup (IF fits THEN {} ELSE oor)
            ELSE IF fits
            THEN LET c2 == Over(c, a, Nothing(b - a + 1)) IN
                 only(Set2(s, k, Slot(c2), j, Slot(Over(e, d, Part(c, a, b)))), It(c2, a))
            ELSE oor
      [] n = "swr" -> LET a == op[3] b == op[4] j == op[5] d == op[6] e == s[j + 1].c IN
            IF a <= b /\ b < z /\ d + b - a < Len(e)
            THEN only(Set2(s, k, Slot(Over(c, a, Part(e, d, d + b - a))), j, Slot(Over(e, d, Part(c, a, b)))), <<"ok">>)
            ELSE oor
      [] n = "swp" -> LET j == op[3] IN only(Set2(s, k, s[j + 1], j, s[k + 1]), <<"ok">>)
      [] n = "copy" -> Duplicate(S, k, op[3], TRUE, -1, <<>>, <<"ok">>, FALSE)
      [] n = "asg" -> Duplicate(S, k, op[3], TRUE, -1, <<>>, <<"ok">>, op[3] = k)
      [] n \in {"clo", "cloh", "cloa"} -> Duplicate(S, k, op[3], FALSE, -1, <<>>, <<"ok", Cloners(c)>>, FALSE)
      [] n = "fdup" -> LET f == op[3] j == op[4] IN
            IF f < 5 THEN Duplicate(S, k, j, f < 2, op[5], <<0, 0>>, <<"ok">>, f = 1 /\ j = k)
            ELSE IF ~S.cow \/ s[k + 1].own \/ op[5] >= NFail(c) THEN keep(<<"ok">>)
            ELSE IF s[k + 1].shr /\ NFail(c) > 0 THEN keep(<<"boom">>)
            ELSE keep(<<"ok">>) \cup keep(<<"boom">>)
      [] n = "fal" -> LET f == op[3] j == op[4] IN
            Duplicate(S, k, j, f < 2, -1, <<0, 0>>, <<"ok">>, f = 1 /\ j = k) \cup keep(<<"boom", 0, 0>>)
      [] n \in {"move", "masg"} -> only(Set2(s, k, Dead, op[3], s[k + 1]), <<"ok">>)
      [] n = "mclr" -> only(Set2(s, k, Slot(<<>>), op[3], s[k + 1]), <<"ok">>)
      [] n = "eq" -> LET e == Vals(c) = Vals(s[op[3] + 1].c)
                         unsure == e /\ op[3] # k /\ Has(c, LAMBDA t : t \in {20, 21}) IN
            keep(<<"eq", e, ~e>>) \cup (IF unsure THEN keep(<<"eq", FALSE, TRUE>>) ELSE {})
      [] n = "eqn" ->
            IF Has(c, NoCopy) THEN keep(<<"ebe">>)
            ELSE LET d == IF op[4] = 0 THEN Over(c, op[3], <<0>>) ELSE IF Managed(op[4]) THEN c ELSE Over(c, op[3], <<Mk(op[4], op[5], 0)>>)
                     e == Vals(c) = Vals(d)
                     unsure == e /\ Has(c, LAMBDA t : t \in {20, 21}) IN
                 keep(<<"eq", e, ~e>>) \cup (IF unsure THEN keep(<<"eq", FALSE, TRUE>>) ELSE {})
      [] n = "pos" -> LET p == op[3]
                          one == IF p > z THEN <<"oor">> ELSE IF p = z THEN <<"end", 0>>
                                 ELSE <<BlockStart(c, p), p - BlockStart(c, p)>> IN
            keep(IF S.cow THEN <<"pos", one, one>> ELSE <<"pos", one, one, one, one>>)
      [] n = "q" -> LET x == IF op[3] < z THEN <<"ok">> ELSE <<"oor">> IN keep(<<"q", x, x, x, x>>)
      [] n = "col" -> keep(Collection(s, op[3], op[4], op[5], op[6], op[7], op[8]))
      [] n = "end" -> keep(<<"live", 0>>)
      [] OTHER -> keep(<<"unknown call">>)
=============================================================================
