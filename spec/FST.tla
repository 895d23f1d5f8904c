-------------------------------- MODULE FST --------------------------------
(* Specification of mdds::flat_segment_tree.                                  *)
(*                                                                            *)
(* State of one container: a range [lo,hi), a default value d, a total        *)
(* function f from the keys of the range to values, and tv, whether the       *)
(* search tree may be used.  Everything the container shows - stored          *)
(* segments, iterators, lookups - is derived from f.  A state of the system   *)
(* is a sequence of slots, each holding a live container or none.             *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC

END == -1000   \* how an end position is reported

Dead == [lo |-> 0, hi |-> 0, d |-> 0, f |-> <<>>, tv |-> FALSE]
Live(c) == c.lo < c.hi
Keys(c) == c.lo .. (c.hi - 1)

Fresh(lo, hi, d) == [lo |-> lo, hi |-> hi, d |-> d, f |-> [k \in lo..(hi-1) |-> d], tv |-> FALSE]

Max2(a, b) == IF a > b THEN a ELSE b
Min2(a, b) == IF a < b THEN a ELSE b
MaxOf(S) == CHOOSE x \in S : \A y \in S : y <= x
MinOf(S) == CHOOSE x \in S : \A y \in S : y >= x

(* ------------------------- derived: the segments ------------------------- *)
StartsSegment(c, k) == k = c.lo \/ c.f[k] # c.f[k-1]
(* start of the maximal segment containing k, and its end *)
RECURSIVE SegStart(_, _)
SegStart(c, k) == IF StartsSegment(c, k) THEN k ELSE SegStart(c, k-1)
RECURSIVE SegEnd(_, _)
SegEnd(c, k) == IF k + 1 = c.hi \/ c.f[k+1] # c.f[k] THEN k + 1 ELSE SegEnd(c, k+1)
StartKeys(c) == SelectSeq([i \in 1..(c.hi - c.lo) |-> c.lo + i - 1], LAMBDA k : StartsSegment(c, k))
(* stored borders: one node per segment, plus the right border (no value) *)
Canon(c) == [i \in 1..Len(StartKeys(c)) |-> <<StartKeys(c)[i], c.f[StartKeys(c)[i]]>>] \o <<<<c.hi, -1>>>>
Segments(c) == [i \in 1..Len(StartKeys(c)) |->
                  <<StartKeys(c)[i], SegEnd(c, StartKeys(c)[i]), c.f[StartKeys(c)[i]]>>]
Rev(s) == [i \in 1..Len(s) |-> s[Len(s) + 1 - i]]

(* --------------------------------- writes -------------------------------- *)
(* content after writing v over [s,e): clipped to the range *)
InRange(c, s, e) == Max2(s, c.lo) < Min2(e, c.hi)
Write(c, s, e, v) == [c EXCEPT !.f = [k \in Keys(c) |-> IF s <= k /\ k < e THEN v ELSE c.f[k]]]
(* a content change invalidates the tree; without one the flag may stay *)
WithContent(c, g) == [c EXCEPT !.f = g, !.tv = (g = c.f) /\ c.tv]
Insert(c, s, e, v) == WithContent(c, Write(c, s, e, v).f)
InsertResult(c, s, e, v) ==
    LET c2 == Insert(c, s, e, v)
    IN  <<"ins", c2.f # c.f, IF InRange(c, s, e) THEN SegStart(c2, Max2(s, c.lo)) ELSE END>>

ShiftLeftValid(c, a, b) == a < b /\ a >= c.lo /\ b <= c.hi
ShiftLeft(c, a, b) ==
    IF ~ShiftLeftValid(c, a, b) THEN c
    ELSE WithContent(c, [k \in Keys(c) |->
            IF k < a THEN c.f[k]
            ELSE IF k + (b - a) < c.hi THEN c.f[k + (b - a)]
            ELSE c.d])

ShiftRightValid(c, p, n) == n > 0 /\ p >= c.lo /\ p < c.hi
ShiftRight(c, p, n, skip) ==
    IF ~ShiftRightValid(c, p, n) THEN c
    ELSE WithContent(c, [k \in Keys(c) |->
            IF k < p THEN c.f[k]
            ELSE IF k < p + n THEN IF skip THEN c.f[p] ELSE IF p = c.lo THEN c.d ELSE c.f[p-1]
            ELSE c.f[k - n]])

Clear(c) == [c EXCEPT !.f = [k \in Keys(c) |-> c.d], !.tv = FALSE]

(* -------------------------------- lookups -------------------------------- *)
Holds(c, k) == c.lo <= k /\ k < c.hi
FindResult(c, k, ok) ==
    IF ok /\ Holds(c, k)
    THEN <<"find", TRUE, SegStart(c, k), c.f[k], SegStart(c, k), SegEnd(c, k), TRUE, c.f[k]>>
    ELSE <<"find", FALSE, END, FALSE>>
PosResult(c, k, ok) ==
    IF ok /\ Holds(c, k)
    THEN <<"pos", SegStart(c, k), c.f[k], SegStart(c, k), SegEnd(c, k), c.f[k]>>
    ELSE <<"pos", END>>
TravResult(c) ==
    LET ks == [i \in 1..Len(Canon(c)) |-> Canon(c)[i][1]] IN
    <<"trav", Len(Canon(c)), Rev(Canon(c)), Rev(ks), ks, Segments(c), Rev(Segments(c)), Segments(c),
      Segments(c), TRUE, TRUE, Segments(c), Rev(Segments(c))>>

(* --------------------------------- calls --------------------------------- *)
(* Apply(S, op): op = <<name, slot, args...>> with slots numbered from 0.     *)
(* Returns the new slots and the result.  The search-tree flag of the slots   *)
(* in `lax` may also be FALSE (the specification only limits when it may be   *)
(* TRUE); for every other slot it is exact.                                   *)
Set(S, k, c) == [S EXCEPT ![k + 1] = c]
Out(S, r, lax) == [st |-> S, res |-> r, lax |-> lax]
Apply(S, op) ==
    LET n == op[1]
        k == op[2]
        c == S[k + 1]
    IN
    CASE n = "new"  -> Out(Set(S, k, Fresh(op[3], op[4], op[5])), <<"ok">>, {})
      [] n \in {"insf", "insb", "insp"} ->
            Out(Set(S, k, Insert(c, op[3], op[4], op[5])), InsertResult(c, op[3], op[4], op[5]), {})
      [] n = "shl" -> Out(Set(S, k, ShiftLeft(c, op[3], op[4])), <<"ok">>, {k})
      [] n = "shr" -> Out(Set(S, k, ShiftRight(c, op[3], op[4], op[5] # 0)), <<"ok">>, {k})
      [] n \in {"find", "findp"} -> Out(S, FindResult(c, op[3], TRUE), {})
      [] n = "tree" -> Out(S, FindResult(c, op[3], c.tv), {})
      [] n \in {"pos", "posp"} -> Out(S, PosResult(c, op[3], TRUE), {})
      [] n = "tpos" -> Out(S, PosResult(c, op[3], c.tv), {})
      [] n = "build" -> Out(Set(S, k, [c EXCEPT !.tv = TRUE]), <<"ok">>, {})
      [] n = "clear" -> Out(Set(S, k, Clear(c)), <<"ok">>, {})
      [] n \in {"copy", "asg"} -> Out(Set(S, op[3], c), <<"ok">>, {op[3]})
      [] n \in {"move", "masg"} ->
            Out(IF op[3] = k THEN S ELSE Set(Set(S, k, Dead), op[3], c), <<"ok">>, {op[3]})
      [] n = "swap" -> Out(Set(Set(S, k, S[op[3] + 1]), op[3], c), <<"ok">>, {})
      [] n = "eq" -> LET e == Canon(c) = Canon(S[op[3] + 1]) IN Out(S, <<"eq", e, ~e>>, {})
      [] n = "trav" -> Out(S, TravResult(c), {})
      [] n = "end" -> Out(S, <<"live", 0>>, {})
      [] OTHER -> Out(S, <<"unknown call">>, {})
=============================================================================
