----------------------------- MODULE RtreeConf -----------------------------
(* conformance of recorded rtree executions *)
EXTENDS Rtree, LogBase

Abs(r) == [alive |-> r.alive, objs |-> r.objs]

(* what a live container must show: the objects, and a well-formed index of   *)
(* them                                                                       *)
SlotWrong(r, want, D, max) ==
    IF r.alive # want.alive THEN "liveness"
    ELSE IF ~want.alive THEN ""
    ELSE IF r.objs # want.objs THEN "objects " \o ToString(want.objs)
    ELSE IF r.size # Len(want.objs) \/ r.empty # (want.objs = <<>>) THEN "size " \o ToString(Len(want.objs))
    ELSE IF r.ext # Hull(want.objs, D) THEN "extent " \o ToString(Hull(want.objs, D))
    ELSE IF r.tree = <<>> THEN "a tree"
    ELSE IF ~r.walk THEN "walk and export to show the same nodes"
    ELSE LET w == TreeWrong(r.tree, want.objs, D, max) IN IF w = "" THEN "" ELSE "no fault: " \o w

(* copies and moves keep the structure; every other call keeps the minimum    *)
(* occupancy where it held                                                    *)
SourceOf(op, i) ==
    CASE op[1] \in {"copy", "asg", "move", "masg"} /\ op[3] + 1 = i -> op[2] + 1
      [] op[1] = "swap" /\ op[3] + 1 = i -> op[2] + 1
      [] op[1] = "swap" /\ op[2] + 1 = i -> op[3] + 1
      [] OTHER -> i
Touches(op, i) == op[2] + 1 = i
Emptied(op, i) == op[1] \in {"move", "masg"} /\ op[2] + 1 = i /\ op[2] # op[3]
ShapeWrong(x, i, min) ==
    LET q == x.post.s[i]
        src == SourceOf(x.op, i)
        p == x.pre.s[src]
    IN  IF ~q.alive THEN ""
        ELSE IF Emptied(x.op, i) \/ (x.op[1] = "bulk" /\ Touches(x.op, i)) THEN ""
        ELSE IF ~p.alive THEN ""
        ELSE IF src # i \/ ~Touches(x.op, i) \/ x.op[1] \in {"search", "chk", "exp", "geo", "ptil", "upd", "copy", "asg", "swap", "masg"}
             THEN (IF Same(q.tree, p.tree) THEN "" ELSE "the same tree " \o ToString(p.tree))
        ELSE IF MinOk(p.tree, TRUE, min) /\ ~MinOk(q.tree, TRUE, min) THEN "no fault: a node holds fewer children than the minimum"
        ELSE ""

RECURSIVE FirstWrong(_, _, _, _, _)
FirstWrong(x, st, i, D, cfg) ==
    IF i > Len(st) THEN "" ELSE
    LET w == SlotWrong(x.post.s[i], st[i], D, cfg[2]) IN
    IF w # "" THEN w ELSE
    LET v == ShapeWrong(x, i, cfg[3]) IN IF v # "" THEN v ELSE FirstWrong(x, st, i + 1, D, cfg)

Verdict(x) ==
    IF x.op[1] = "end" THEN IF Same(x.res, <<"live", 0>>) THEN "" ELSE "nothing left allocated" ELSE
    LET cfg == x.pre.cfg
        D == cfg[1]
        S == [i \in 1..Len(x.pre.s) |-> Abs(x.pre.s[i])]
        t == x.pre.s[x.op[2] + 1].tree
    IN
    IF x.op[1] \in Choosing THEN
        LET st == Resolve(S, x.op, x.res, D) IN
        IF st = <<>> THEN "one of the objects " \o ToString(Candidates(S[x.op[2] + 1], x.op, D))
        ELSE FirstWrong(x, st[1], 1, D, cfg)
    ELSE
        LET o == Apply(S, x.op, D, t, cfg[3]) IN
        IF ~Same(x.res, o.res) THEN "result " \o ToString(o.res)
        ELSE FirstWrong(x, o.st, 1, D, cfg)
Init == l = 1
Next == l <= Len(Lines) /\ Report(l, Verdict(Lines[l])) /\ l' = l + 1
=============================================================================
