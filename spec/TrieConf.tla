------------------------------ MODULE TrieConf ------------------------------
(* conformance of recorded trie_map / packed_trie_map executions *)
EXTENDS Trie, LogBase

Abs(r) == [alive |-> r.alive, items |-> r.items]
Repr(c) == [alive |-> c.alive, items |-> c.items, back |-> c.items, size |-> Len(c.items), empty |-> (c.items = <<>>),
            nodes |-> IF c.alive THEN Nodes(c.items) ELSE <<>>]
(* a slot the call does not change may simply look as before *)
Verdict(x) ==
    LET S == [i \in 1..Len(x.pre) |-> Abs(x.pre[i])]
        o == IF x.op[1] = "big" THEN Out(S, BigResult(x.op[3], x.op[4], x.op[5], x.res)) ELSE Apply(S, x.op)
        ok(i) == IF o.st[i] = S[i] /\ x.post[i] = x.pre[i] THEN TRUE ELSE x.post[i] = Repr(o.st[i])
    IN  IF ~Same(x.res, o.res) THEN "result " \o ToString(o.res)
        ELSE IF \A i \in 1..Len(S) : ok(i) THEN ""
        ELSE "state " \o ToString([i \in 1..Len(S) |-> Repr(o.st[i])])
Init == l = 1
Next == l <= Len(Lines) /\ Report(l, Verdict(Lines[l])) /\ l' = l + 1
=============================================================================
