-------------------------------- MODULE Ssm --------------------------------
(* Specification of mdds::sorted_string_map: an immutable table of entries,   *)
(* ascending by key.  A call of the model replaces the table by one with an   *)
(* entry more, less or changed, and constructs the map anew.                  *)
EXTENDS SeqKeys

Null == -1
Find(m, k) == LET f == At(m, k) IN IF f = <<>> THEN Null ELSE f[1][2]
KeysOf(m, v) == {m[i][1] : i \in {j \in 1..Len(m) : m[j][2] = v}}
(* reverse lookup may return any key mapped to the value *)
RevOK(m, v, k) == IF KeysOf(m, v) = {} THEN k = <<>> ELSE k \in KeysOf(m, v)

Out(m, r) == [st |-> m, res |-> r]
Apply(m, op) ==
    CASE op[1] = "put"  -> Out(Put(m, op[2], op[3]), <<"ok">>)
      [] op[1] = "del"  -> Out(Del(m, op[2]), <<"ok">>)
      [] op[1] = "find" -> LET v == Find(m, op[2]) IN Out(m, <<"find", v, v, v>>)
      [] op[1] = "end"  -> Out(m, <<"live", 0>>)
      [] OTHER          -> Out(m, <<"unknown call">>)
=============================================================================
