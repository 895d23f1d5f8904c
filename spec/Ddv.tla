-------------------------------- MODULE Ddv --------------------------------
(* Specification of mdds::mtv::delayed_delete_vector, the default store of an *)
(* element block: a sequence of values.  That elements erased from the front  *)
(* stay in memory for a while is not observable.  A state of the system is a  *)
(* sequence of slots.                                                         *)
EXTENDS Naturals, Integers, Sequences, TLC

Dead == [alive |-> FALSE, c |-> <<>>]
Vec(c) == [alive |-> TRUE, c |-> c]
Take(c, n) == SubSeq(c, 1, n)
Drop(c, n) == SubSeq(c, n + 1, Len(c))
(* n values counting up from v, modulo m *)
Run(n, v, m) == [i \in 1..n |-> (v + i - 1) % m]
Rep(n, v) == [i \in 1..n |-> v]

Set(S, k, x) == [S EXCEPT ![k + 1] = x]
Out(S, r, lax) == [st |-> S, res |-> r, lax |-> lax]
(* lax: slots that were moved from, whose content is not specified *)
Apply(S, op) ==
    LET n == op[1]
        k == op[2]
        c == S[k + 1].c
        put(x, r) == Out(Set(S, k, Vec(x)), r, {})
    IN
    CASE n = "new"  -> put(CASE op[3] = 0 -> <<>> [] op[3] = 1 -> Rep(op[4], op[5]) [] op[3] = 2 -> Rep(op[4], 0) [] OTHER -> Run(op[4], op[5], op[6]), <<"ok">>)
      [] n = "push" -> put(Append(c, op[4]), <<"ok">>)
      [] n = "pushs" -> put(Append(c, c[op[3] + 1]), <<"ok">>)
      [] n = "ins"  -> put(Take(c, op[4]) \o <<op[5]>> \o Drop(c, op[4]), <<"pos", op[4]>>)
      [] n = "inss" -> put(Take(c, op[3]) \o <<c[op[4] + 1]>> \o Drop(c, op[3]), <<"pos", op[3]>>)
      [] n = "insr" -> put(Take(c, op[3]) \o Run(op[4], op[5], op[6]) \o Drop(c, op[3]), <<"ok">>)
      [] n = "era"  -> put(Take(c, op[3]) \o Drop(c, op[3] + 1), <<"pos", op[3]>>)
      [] n = "erar" -> put(Take(c, op[3]) \o Drop(c, op[4]), <<"pos", op[3]>>)
      [] n = "res"  -> put(IF op[3] <= Len(c) THEN Take(c, op[3]) ELSE c \o Rep(op[3] - Len(c), 0), <<"ok">>)
      [] n = "asn"  -> put(Run(op[3], op[4], op[5]), <<"ok">>)
      [] n = "rsv"  -> put(c, <<"room", TRUE>>)
      [] n = "shr"  -> put(c, <<"room", TRUE>>)
      [] n = "set"  -> put([c EXCEPT ![op[4] + 1] = op[5]], <<"ok">>)
      [] n \in {"copy", "asg"} -> Out(Set(S, op[3], S[k + 1]), <<"ok">>, {})
      [] n \in {"move", "masg"} -> IF op[3] = k THEN Out(S, <<"ok">>, {})
                                   ELSE Out(Set(Set(S, k, Vec(<<>>)), op[3], S[k + 1]), <<"ok">>, {k})
      [] n = "swap" -> Out(Set(Set(S, k, S[op[3] + 1]), op[3], S[k + 1]), <<"ok">>, {})
      [] n = "eq"   -> LET e == c = S[op[3] + 1].c IN Out(S, <<"eq", e, ~e>>, {})
      [] n = "at"   -> Out(S, IF op[3] < Len(c) THEN <<"at", c[op[3] + 1], c[op[3] + 1]>> ELSE <<"oor", "oor">>, {})
      [] n = "end"  -> Out(S, <<"live", 0>>, {})
      [] OTHER      -> Out(S, <<"unknown call">>, {})
=============================================================================
