------------------------------ MODULE MtvConf ------------------------------
(* conformance of recorded multi_type_vector executions *)
EXTENDS Mtv, LogBase

Abs(x) == [s |-> [i \in 1..Len(x.s) |-> [alive |-> x.s[i].alive, c |-> x.s[i].c, own |-> x.s[i].own, shr |-> x.s[i].shr]],
           nid |-> x.nid, cow |-> x.cow, ty |-> x.ty]
Count(b, t) == Cardinality({j \in 1..Len(b) : b[j][1] = t})
BlockTypes(b) == {b[j][1] : j \in 1..Len(b)} \ {0}
Set2Of(q) == {q[i] : i \in 1..Len(q)}

(* what every observed slot must satisfy by itself *)
SlotFault(r, cow) ==
    IF ~r.alive THEN ""
    ELSE IF ~IsRuns(r.blk, r.c) THEN "blocks are not the maximal runs of the cells"
    ELSE IF r.n # <<Len(r.c), Len(r.blk), IF r.c = <<>> THEN 1 ELSE 0>> THEN "size, block count or emptiness"
    ELSE IF r.alt # <<>> THEN "views disagree: " \o ToString(r.alt)
    ELSE IF Len(r.ev) # Cardinality(BlockTypes(r.blk)) \/ Set2Of(r.ev) # {<<t, Count(r.blk, t)>> : t \in BlockTypes(r.blk)}
         THEN "announced blocks " \o ToString(r.ev)
    ELSE IF r.shr /\ (r.own \/ ~cow) THEN "shares blocks though sole owner"
    ELSE ""
RECURSIVE FirstFault(_, _, _)
FirstFault(p, cow, i) == IF i > Len(p.s) THEN ""
                         ELSE LET f == SlotFault(p.s[i], cow) IN IF f # "" THEN "slot " \o ToString(i - 1) \o ": " \o f ELSE FirstFault(p, cow, i + 1)
(* ownership: every object has one owner, and exactly the owned objects live *)
OwnFault(p) ==
    LET ids == [i \in 1..Len(p.s) |-> Ids(p.s[i].c)] IN
    IF p.bad # <<0, 0>> THEN "object destroyed twice, or a handler died with blocks outstanding"
    ELSE IF Set2Of(p.live) # UNION {ids[i] : i \in 1..Len(ids)} THEN "live objects " \o ToString(p.live)
    ELSE IF \E i \in 1..Len(ids) : Cardinality(ids[i]) # NObj(p.s[i].c) THEN "an object in two cells"
    ELSE IF \E i, j \in 1..Len(ids) : i # j /\ ids[i] \cap ids[j] # {} /\ ~(p.s[i].shr /\ p.s[j].shr)
         THEN "an object in two containers"
    ELSE ""

CellOK(want, got, S) ==
    IF want = got THEN TRUE
    ELSE /\ Val(want) = Val(got) /\ Managed(Type(got))
         /\ \/ Id(want) = FRESH /\ Id(got) >= S.nid
            \/ S.cow
SlotOK(want, r, S) == /\ want.alive = r.alive
                      /\ Len(want.c) = Len(r.c)
                      /\ \A i \in 1..Len(r.c) : CellOK(want.c[i], r.c[i], S)
ResOK(want, got, S, op) == \/ Same(want, got)
                           \/ S.cow /\ op[1] \in {"clo", "cloh", "cloa"} /\ want[1] = "ok" /\ got[1] = "ok"

Verdict(x) ==
    IF x.op[1] = "end" THEN (IF Same(x.res, <<"live", 0>>) THEN "" ELSE "result <<live, 0>>")
    ELSE
    LET S == Abs(x.pre)
        O == Steps(S, x.op)
        R == {o \in O : ResOK(o.r, x.res, S, x.op)}
        G == {o \in R : \A i \in 1..Len(o.s) : SlotOK(o.s[i], x.post.s[i], S)}
        f == FirstFault(x.post, x.post.cow, 1)
        w == OwnFault(x.post)
    IN  IF R = {} THEN "result " \o ToString({o.r : o \in O})
        ELSE IF G = {} THEN "content " \o ToString({[i \in 1..Len(o.s) |-> o.s[i].c] : o \in R})
        ELSE IF f # "" THEN f
        ELSE w
Init == l = 1
Next == l <= Len(Lines) /\ Report(l, Verdict(Lines[l])) /\ l' = l + 1
=============================================================================
