------------------------------ MODULE SsmConf ------------------------------
(* conformance of recorded sorted_string_map executions *)
EXTENDS Ssm, LogBase

(* what an observation must show when the table is m: every query of the      *)
(* driver's universe is answered by the entry with that key (by the map with  *)
(* the linear finder, a copied map with the hash finder and the pointer       *)
(* overload), all others by the null value                                    *)
ObsOK(r, m) ==
    /\ r.tab = m
    /\ \A i \in 1..Len(r.found) : LET f == r.found[i] v == Find(m, f[1]) IN v # Null /\ f[2] = v /\ f[3] = v /\ f[4] = v
    /\ \A i \in 1..(Len(r.found)) : \A j \in 1..(i - 1) : r.found[i][1] # r.found[j][1]
    /\ r.size = <<Len(m), Len(m)>>
    /\ \A v \in 0..3 : RevOK(m, v, r.rev[v + 1][1]) /\ RevOK(m, v, r.rev[v + 1][2])
(* no stored key of the universe is missed *)
Complete(r, m) == \A i \in 1..Len(m) : \/ Len(m[i][1]) > 2
                                       \/ \E j \in 1..Len(r.found) : r.found[j][1] = m[i][1]
Verdict(x) ==
    LET o == Apply(x.pre.tab, x.op) IN
    IF ~Same(x.res, o.res) THEN "result " \o ToString(o.res)
    ELSE IF ObsOK(x.post, o.st) /\ Complete(x.post, o.st) THEN ""
    ELSE "lookups over the table " \o ToString(o.st)
Init == l = 1
Next == l <= Len(Lines) /\ Report(l, Verdict(Lines[l])) /\ l' = l + 1
=============================================================================
