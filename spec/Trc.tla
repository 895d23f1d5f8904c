-------------------------------- MODULE Trc --------------------------------
(* Specification of call tracing (MDDS_MULTI_TYPE_VECTOR_TRACE) of            *)
(* soa::multi_type_vector.  Every call of a public method is reported once,   *)
(* for the instance it is made on, with kind, name and arguments, whether or  *)
(* not it is refused; what the method calls on its own instance is not; and   *)
(* the content follows the plain sequence of cells.                           *)
(* A cell is 0 (empty) or 10 * type + value, types 1 double, 2 int32,         *)
(* 3 string.  A state is a sequence of slots.                                 *)
EXTENDS Naturals, Integers, Sequences, TLC

Dead == [al |-> FALSE, c |-> <<>>]
Slot(c) == [al |-> TRUE, c |-> c]
Accessor == 1
AccessorHint == 257
Mutator == 2
MutatorHint == 258
Constructor == 3
Destructor == 4
(* element type numbers of the standard blocks *)
ET(t) == CASE t = 1 -> 10 [] t = 2 -> 5 [] t = 3 -> 11
Str(n) == ToString(n)

(* ---- content *)
Nothing(n) == [i \in 1..n |-> 0]
Cells(t, v, n) == [i \in 1..n |-> (10 * t) + ((v + i - 1) % 3)]
Over(c, p, x) == [i \in 1..Len(c) |-> IF i > p /\ i <= p + Len(x) THEN x[i - p] ELSE c[i]]
Splice(c, p, x) == SubSeq(c, 1, p) \o x \o SubSeq(c, p + 1, Len(c))
Part(c, a, b) == SubSeq(c, a + 1, b + 1)
Cut(c, a, b) == SubSeq(c, 1, a) \o SubSeq(c, b + 2, Len(c))
TypeOf(x) == x \div 10
ValueOf(x) == IF x = 0 THEN 0 ELSE x % 10
NBlocks(c) == Len(SelectSeq([i \in 1..Len(c) |-> IF i = 1 THEN TRUE ELSE TypeOf(c[i]) # TypeOf(c[i - 1])], LAMBDA b : b))

(* ---- reports: <<kind, name, arguments, TRUE>> *)
Rec(kind, name, args) == <<kind, name, args, TRUE>>
Mut(h, name, args) == IF h = 0 THEN Rec(Mutator, name, args) ELSE Rec(MutatorHint, name, "pos_hint=?; " \o args)
ValueArg(t) == "value=? (type=" \o Str(ET(t)) \o ")"
RangeArg(n) == "it_begin=?; it_end=? (length=" \o Str(n) \o ")"
Iters == <<"begin", "end", "begin", "end", "cbegin", "cend", "rbegin", "rend", "rbegin", "rend", "crbegin", "crend">>
(* type the driver asks for at position p *)
Asked(c, p) == IF p < Len(c) /\ c[p + 1] # 0 THEN TypeOf(c[p + 1]) ELSE 2

Expect(c, op) ==
    LET n == op[1] IN
    CASE n = "new" -> Rec(Constructor, "multi_type_vector",
                          CASE op[3] = 0 -> ""
                            [] op[3] = 1 -> "event_func=?"
                            [] op[3] = 2 -> "event_func=? (move)"
                            [] op[3] = 3 -> "init_size=" \o Str(op[4])
                            [] op[3] = 4 -> "init_size=" \o Str(op[4]) \o "; " \o ValueArg(op[5])
                            [] op[3] = 5 -> "init_size=" \o Str(op[4]) \o "; " \o RangeArg(op[4]))
      [] n = "cctor" -> Rec(Constructor, "multi_type_vector", "other=? (copy)")
      [] n = "mctor" -> Rec(Constructor, "multi_type_vector", "other=? (move)")
      [] n = "del"   -> Rec(Destructor, "~multi_type_vector", "")
      [] n \in {"clo", "cloh"} -> Rec(Accessor, "clone", "")
      [] n = "asg"   -> Rec(Mutator, "operator=", "other=? (copy)")
      [] n = "masg"  -> Rec(Mutator, "operator=", "other=? (move)")
      [] n = "swap"  -> Rec(Mutator, "swap", "other=?")
      [] n = "swr"   -> Rec(Mutator, "swap", "start_pos=" \o Str(op[4]) \o "; end_pos=" \o Str(op[5]) \o "; other=?; other_pos=" \o Str(op[6]))
      [] n = "tra"   -> Mut(op[7], "transfer", "start_pos=" \o Str(op[4]) \o "; end_pos=" \o Str(op[5]) \o "; dest=?; dest_pos=" \o Str(op[6]))
      [] n = "set"   -> Mut(op[3], "set", "pos=" \o Str(op[4]) \o "; " \o ValueArg(op[5]))
      [] n = "setr"  -> Mut(op[3], "set", "pos=" \o Str(op[4]) \o "; " \o RangeArg(op[7]))
      [] n = "ins"   -> Mut(op[3], "insert", "pos=" \o Str(op[4]) \o "; " \o RangeArg(op[7]))
      [] n = "push"  -> IF op[5] = 2 THEN Rec(Mutator, "emplace_back", "?") ELSE Rec(Mutator, "push_back", ValueArg(op[3]))
      [] n = "pushe" -> Rec(Mutator, "push_back_empty", "")
      [] n = "emp"   -> Mut(op[3], "set_empty", "start_pos=" \o Str(op[4]) \o "; end_pos=" \o Str(op[5]))
      [] n = "inse"  -> Mut(op[3], "insert_empty", "pos=" \o Str(op[4]) \o "; length=" \o Str(op[5]))
      [] n = "era"   -> Rec(Mutator, "erase", "start_pos=" \o Str(op[3]) \o "; end_pos=" \o Str(op[4]))
      [] n = "clr"   -> Rec(Mutator, "clear", "")
      [] n = "rsz"   -> Rec(Mutator, "resize", "new_size=" \o Str(op[3]))
      [] n = "shr"   -> Rec(Mutator, "shrink_to_fit", "")
      [] n = "det"   -> Rec(Mutator, "detach", "")
      [] n = "get"   -> Rec(Accessor, "get", "pos=" \o Str(op[4]) \o (IF op[3] = 0 THEN "" ELSE "; " \o ValueArg(Asked(c, op[4]))))
      [] n = "type"  -> Rec(Accessor, "get_type", "pos=" \o Str(op[3]))
      [] n = "ise"   -> Rec(Accessor, "is_empty", "pos=" \o Str(op[3]))
      [] n = "size"  -> Rec(Accessor, "size", "")
      [] n = "bsz"   -> Rec(Accessor, "block_size", "")
      [] n = "empty" -> Rec(Accessor, "empty", "")
      [] n = "pos"   -> IF op[3] < 2 THEN Rec(Accessor, "position", "pos=" \o Str(op[4])) ELSE Rec(AccessorHint, "position", "pos_hint=?; pos=" \o Str(op[4]))
      [] n = "it"    -> Rec(Accessor, Iters[op[3] + 1], "")
      [] n = "rel"   -> IF op[3] = 0 THEN Rec(Mutator, "release", "pos=" \o Str(op[4]))
                        ELSE Mut(op[3] - 1, "release", "pos=" \o Str(op[4]) \o "; " \o ValueArg(Asked(c, op[4])))
      [] n = "rela"  -> Rec(Mutator, "release", "")
      [] n = "relr"  -> Mut(op[3], "release_range", "start_pos=" \o Str(op[4]) \o "; end_pos=" \o Str(op[5]))
      [] n = "eq"    -> Rec(Accessor, "operator==", "other=?")
      [] n = "evh"   -> Rec(Accessor, "event_handler", "")

(* ---- steps: the state and <<outcome, value>> *)
SetS(S, k, x) == [S EXCEPT ![k + 1] = x]
Effect(S, op) ==
    LET n == op[1]
        k == op[2]
        c == S[k + 1].c
        z == Len(c)
        put(c2) == [st |-> SetS(S, k, Slot(c2)), out |-> "ok", val |-> 0]
        same(v) == [st |-> S, out |-> "ok", val |-> v]
        oor == [st |-> S, out |-> "oor", val |-> 0]
        invalid == [st |-> S, out |-> "invalid", val |-> 0]
        two(x, j, y) == [st |-> SetS(SetS(S, k, x), j, y), out |-> "ok", val |-> 0]
        within(a, b) == a <= b /\ b < z
    IN
    CASE n = "new" -> put(IF op[3] < 3 THEN <<>> ELSE IF op[3] = 3 THEN Nothing(op[4]) ELSE IF op[3] = 4 THEN [i \in 1..op[4] |-> (10 * op[5]) + op[6]] ELSE Cells(op[5], op[6], op[4]))
      [] n \in {"cctor", "clo", "cloh", "asg"} -> [st |-> SetS(S, op[3], S[k + 1]), out |-> "ok", val |-> 0]
      [] n \in {"mctor", "masg"} -> two(Dead, op[3], S[k + 1])
      [] n = "del" -> [st |-> SetS(S, k, Dead), out |-> "ok", val |-> 0]
      [] n = "swap" -> two(S[op[3] + 1], op[3], S[k + 1])
      [] n = "swr" -> LET j == op[3] a == op[4] b == op[5] d == op[6] e == S[j + 1].c IN
            IF within(a, b) /\ d + b - a < Len(e) THEN two(Slot(Over(c, a, Part(e, d, d + b - a))), j, Slot(Over(e, d, Part(c, a, b)))) ELSE oor
      [] n = "tra" -> LET j == op[3] a == op[4] b == op[5] d == op[6] e == S[j + 1].c IN
            IF j = k THEN invalid
            ELSE IF within(a, b) /\ d + b - a < Len(e) THEN two(Slot(Over(c, a, Nothing(b - a + 1))), j, Slot(Over(e, d, Part(c, a, b)))) ELSE oor
      [] n = "set" -> IF op[4] < z THEN put(Over(c, op[4], <<(10 * op[5]) + op[6]>>)) ELSE oor
      [] n = "setr" -> IF op[4] + op[7] <= z THEN put(Over(c, op[4], Cells(op[5], op[6], op[7]))) ELSE oor
      [] n = "ins" -> IF op[4] < z THEN put(Splice(c, op[4], Cells(op[5], op[6], op[7]))) ELSE oor
      [] n = "push" -> put(Append(c, (10 * op[3]) + op[4]))
      [] n = "pushe" -> put(Append(c, 0))
      [] n = "emp" -> IF within(op[4], op[5]) THEN put(Over(c, op[4], Nothing(op[5] - op[4] + 1))) ELSE oor
      [] n = "inse" -> IF op[4] < z THEN put(Splice(c, op[4], Nothing(op[5]))) ELSE oor
      [] n = "era" -> IF within(op[3], op[4]) THEN put(Cut(c, op[3], op[4])) ELSE oor
      [] n = "clr" -> put(<<>>)
      [] n = "rsz" -> put(IF op[3] <= z THEN SubSeq(c, 1, op[3]) ELSE c \o Nothing(op[3] - z))
      [] n \in {"shr", "det", "it", "evh"} -> same(0)
      [] n = "get" -> IF op[4] < z THEN same(ValueOf(c[op[4] + 1])) ELSE oor
      [] n = "type" -> IF op[3] < z THEN same(TypeOf(c[op[3] + 1])) ELSE oor
      [] n = "ise" -> IF op[3] < z THEN same(IF c[op[3] + 1] = 0 THEN 1 ELSE 0) ELSE oor
      [] n = "size" -> same(z)
      [] n = "bsz" -> same(NBlocks(c))
      [] n = "empty" -> same(IF z = 0 THEN 1 ELSE 0)
      [] n = "pos" -> IF op[4] <= z THEN same(IF op[4] = z THEN -1 ELSE op[4]) ELSE oor
      [] n = "rel" -> IF op[4] < z THEN [put(Over(c, op[4], <<0>>)) EXCEPT !.val = ValueOf(c[op[4] + 1])] ELSE oor
      [] n = "rela" -> put(<<>>)
      [] n = "relr" -> IF within(op[4], op[5]) THEN put(Over(c, op[4], Nothing(op[5] - op[4] + 1))) ELSE oor
      [] n = "eq" -> same(IF (c = S[op[3] + 1].c) = (op[4] = 0) THEN 1 ELSE 0)
Known == {"new", "cctor", "mctor", "del", "clo", "cloh", "asg", "masg", "swap", "swr", "tra", "set", "setr", "ins", "push", "pushe", "emp", "inse", "era",
          "clr", "rsz", "shr", "det", "get", "type", "ise", "size", "bsz", "empty", "pos", "it", "rel", "rela", "relr", "eq", "evh"}
Apply(S, op, traced) ==
    IF op[1] = "end" THEN [st |-> S, res |-> <<"live", 0>>]
    ELSE IF op[1] \notin Known THEN [st |-> S, res |-> <<"unknown call">>]
    ELSE LET e == Effect(S, op) IN
         [st |-> e.st, res |-> <<e.out, e.val, IF traced THEN <<Expect(S[op[2] + 1].c, op)>> ELSE <<>>>>]
=============================================================================
