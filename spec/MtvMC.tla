------------------------------- MODULE MtvMC -------------------------------
(* Exhaustive exploration of the multi_type_vector specification.  The        *)
(* explored state is the layout of types (values and object identities are    *)
(* outside the view; values are chosen by the depth so that neighbours        *)
(* differ) and, with copy-on-write, who shares storage with whom.             *)
EXTENDS Mtv, Json

CONSTANTS TYS, MAXLEN, NSLOTS, COW, FAR, CALLS
VARIABLES s, grp, nid, hist
vars == <<s, grp, nid, hist>>

Idx == 1..NSLOTS
Slots == 0..(NSLOTS - 1)
GroupOf(i) == CHOOSE j \in Idx : grp[j] = grp[i] /\ \A q \in Idx : grp[q] = grp[i] => j <= q
View == [i \in Idx |-> <<s[i].alive, [q \in 1..Len(s[i].c) |-> Type(s[i].c[q])], GroupOf(i)>>]

Init == s = [i \in Idx |-> Dead] /\ grp = [i \in Idx |-> i] /\ nid = 1 /\ hist = <<>>

TYL == Sorted(TYS)
Types == TYS
V == (3 * Len(hist)) % 7
LiveSlots == {k \in Slots : s[k + 1].alive}
Min(a, b) == IF a < b THEN a ELSE b

(* sharing: storage is shared when copied under copy-on-write and non-empty *)
Shr(i) == COW /\ s[i].alive /\ s[i].c # <<>> /\ \E j \in Idx : j # i /\ s[j].alive /\ grp[j] = grp[i]
State == [s |-> [i \in Idx |-> [alive |-> s[i].alive, c |-> s[i].c, own |-> ~Shr(i), shr |-> Shr(i)]],
          nid |-> nid, cow |-> COW, ty |-> TYL]

P(k) == 0..(Len(s[k + 1].c) - 1 + FAR)
Ranges(k) == {r \in P(k) \X P(k) : r[1] <= r[2] \/ FAR > 0}
Room(k) == MAXLEN - Len(s[k + 1].c)
Hints == {-1, -2}

OpsOf(n, k) ==
    LET z == Len(s[k + 1].c) IN
    CASE n = "new" -> {<<n, j, f, m, t, V>> : j \in Slots, f \in {0, 3, 4, 5}, m \in 1..MAXLEN, t \in Types}
      [] n = "set" -> {<<n, k, p, t, V, h>> : p \in P(k), t \in Types, h \in Hints}
      [] n = "setr" -> {<<n, k, p, t, V, m, h>> : p \in P(k), t \in Types, m \in (IF FAR > 0 THEN 0 ELSE 1)..3, h \in Hints}
      [] n \in {"push", "emp"} -> IF Room(k) > 0 THEN {<<n, k, t, V>> : t \in Types} ELSE {}
      [] n = "pushe" -> IF Room(k) > 0 THEN {<<n, k>>} ELSE {}
      [] n = "ins" -> {<<n, k, p, t, V, m, h>> : p \in P(k), t \in Types, m \in (IF FAR > 0 THEN 0 ELSE 1)..Min(2, Room(k)), h \in Hints}
      [] n = "inse" -> {<<n, k, p, m, h>> : p \in P(k), m \in (IF FAR > 0 THEN 0 ELSE 1)..Min(2, Room(k)), h \in Hints}
      [] n = "sete" -> {<<n, k, r[1], r[2], h>> : r \in Ranges(k), h \in Hints}
      [] n = "era" -> {<<n, k, r[1], r[2]>> : r \in Ranges(k)}
      [] n \in {"clear", "shrink", "det", "rela"} -> {<<n, k>>}
      [] n = "res" -> {<<n, k, m>> : m \in 0..MAXLEN}
      [] n = "fill" -> IF Room(k) > 1 THEN {<<n, k, Room(k) - 1, V, 1>>, <<n, k, Room(k), V, 0>>} ELSE {}
      [] n = "rel" -> {<<n, k, p, f, -2>> : p \in P(k), f \in 0..2}
      [] n = "relr" -> {<<n, k, r[1], r[2], h>> : r \in Ranges(k), h \in Hints}
      [] n = "tra" -> {<<n, k, r[1], r[2], j, d, -1>> : r \in Ranges(k), j \in {q \in LiveSlots : q # k \/ FAR > 0}, d \in 0..(MAXLEN - 1)}
      [] n = "swr" -> {<<n, k, r[1], r[2], j, d>> : r \in Ranges(k), j \in {q \in LiveSlots : q # k}, d \in 0..(MAXLEN - 1)}
      [] n \in {"copy", "clo", "cloh"} -> {<<n, k, j>> : j \in Slots}
      [] n = "asg" -> {<<n, k, j>> : j \in LiveSlots}
      [] n = "cloa" -> {<<n, k, j>> : j \in LiveSlots}
      [] n \in {"swp", "eq"} -> {<<n, k, j>> : j \in LiveSlots}
      [] n = "masg" -> {<<n, k, j>> : j \in LiveSlots \ {k}}
      [] n \in {"move", "mclr"} -> {<<n, k, j>> : j \in Slots \ {k}}
      [] n = "eqn" -> {<<n, k, p, t, V>> : p \in 0..(z - 1), t \in {0} \cup Types}
      [] n = "pos" -> {<<n, k, p, h>> : p \in 0..(z + 1), h \in 0..1}
      [] n = "q" -> {<<n, k, p>> : p \in 0..(z + 1)}
      [] n = "fdup" -> {<<n, k, f, j, i>> : f \in {0, 2, 3}, j \in Slots, i \in 0..z} \cup {<<n, k, f, j, i>> : f \in {1, 4}, j \in LiveSlots, i \in 0..z}
      [] n = "fal" -> {<<n, k, f, j, i>> : f \in {0, 2, 3}, j \in Slots, i \in 0..(2 * z)} \cup {<<n, k, f, j, i>> : f \in {1, 4}, j \in LiveSlots, i \in 0..(2 * z)}
      [] n = "col" -> {<<n, k, sel, f, r[1], r[2], q[1], q[2]>> :
                          sel \in {x \in {1, 2, 5, 6, 9, 10, 22} : \A i \in 1..Len(Selected(x)) : Selected(x)[i] - 1 \in LiveSlots},
                          f \in {0, 7}, r \in {<<0, -1>>} \cup ((0..z) \X (0..(z + FAR))), q \in {<<0, -1>>, <<0, 1>>, <<1, 1>>, <<1, 2>>}}
      [] OTHER -> {}
Fits(op) == LET k == op[2] IN
    CASE op[1] = "setr" -> FAR > 0 \/ op[3] + op[6] <= Len(s[k + 1].c)
      [] op[1] \in {"tra", "swr"} -> FAR > 0 \/ op[6] + op[4] - op[3] < Len(s[op[5] + 1].c)
      [] op[1] = "new" -> /\ ~s[op[2] + 1].alive
                          /\ (op[3] = 0 => op[4] = 1) /\ (op[3] \in {0, 3} => op[5] = TYL[1]) /\ (op[3] = 4 => ~Managed(op[5]))
      [] OTHER -> TRUE
Ops == IF LiveSlots = {} THEN {<<"new", 0, 0, 0, TYL[1], 0>>}
       ELSE {o \in UNION {OpsOf(n, k) : n \in CALLS, k \in LiveSlots} : Fits(o)}

(* objects made by a duplication get real identities *)
Renum(c, base) == [i \in 1..Len(c) |-> IF Id(c[i]) = FRESH THEN (base + i) * 1000 + Val(c[i]) ELSE c[i]]
Post(ns) == [i \in Idx |-> [alive |-> ns[i].alive, c |-> Renum(ns[i].c, nid + 20 * i)]]

Max(S) == CHOOSE x \in S : \A y \in S : y <= x
NewGrp(op, o) ==
    LET k == op[2] + 1 j == (IF Len(op) > 2 THEN op[3] ELSE 0) + 1 fresh == 1 + Max({grp[i] : i \in Idx}) IN
    IF ~COW THEN grp
    ELSE CASE op[1] \in {"copy", "asg", "clo", "cloh", "cloa"} -> IF o.r[1] = "ok" /\ j # k THEN [grp EXCEPT ![j] = grp[k]] ELSE grp
           [] op[1] \in {"move", "masg", "mclr"} -> [grp EXCEPT ![j] = grp[k], ![k] = fresh]
           [] op[1] = "swp" -> [grp EXCEPT ![j] = grp[k], ![k] = grp[j]]
           [] op[1] \in {"tra", "swr"} -> IF o.r[1] \in {"oor", "invalid"} THEN grp ELSE [grp EXCEPT ![k] = fresh, ![op[5] + 1] = fresh + 1]
           [] op[1] \in {"eq", "eqn", "pos", "q", "col", "fdup", "fal"} -> grp
           [] OTHER -> IF o.r[1] \in {"oor", "shared", "ebe", "boom", "end"} THEN grp ELSE [grp EXCEPT ![k] = fresh]

-----------------------------------------------------------------------------
(* every object has one owner; only managed cells have one; booleans are 0/1 *)
AllIds(x) == UNION {Ids(x[i].c) : i \in Idx}
RECURSIVE Total(_, _)
Total(x, i) == IF i > NSLOTS THEN 0 ELSE NObj(x[i].c) + Total(x, i + 1)
Inv == /\ Cardinality(AllIds(s)) = Total(s, 1)
       /\ \A i \in Idx : /\ ~s[i].alive => s[i].c = <<>>
                         /\ Len(s[i].c) <= MAXLEN
                         /\ \A q \in 1..Len(s[i].c) :
                               /\ (Id(s[i].c[q]) # 0) = Managed(Type(s[i].c[q]))
                               /\ Type(s[i].c[q]) \in {0} \cup Types
                               /\ Type(s[i].c[q]) = 0 => Val(s[i].c[q]) = 0
                               /\ Type(s[i].c[q]) = 3 => Val(s[i].c[q]) % 10 < 2

(* the block partition derived from the cells satisfies the partition predicate the real one is held to *)
RECURSIVE Blocks(_, _)
Blocks(c, p) == IF p >= Len(c) THEN <<>> ELSE LET e == BlockEnd(c, p) IN <<<<Type(c[p + 1]), p, e - p + 1>>>> \o Blocks(c, e + 1)

Refusals == {"oor", "invalid", "shared", "ebe", "boom"}
(* pointwise laws, independent of the splicing operators the specification is written with *)
LawOK(op, o, t) ==
    LET n == op[1]  k == op[2] + 1  c == s[k].c  d == t[k].c  r == o.r[1]  z == Len(c)
        only(X) == \A i \in Idx : i \notin X => t[i] = s[i]
        kept(f) == Len(d) = z /\ \A i \in 1..z : d[i] = f[i]
        blank(a, b) == Len(d) = z /\ \A i \in 1..z : d[i] = IF i - 1 \in a..b THEN 0 ELSE c[i]
        gone == Ids(c) \ Ids(d)
    IN
    /\ r \in Refusals => t = s
    /\ \A i \in Idx : IsRuns(Blocks(t[i].c, 0), t[i].c)
    /\ n = "set" => IF op[3] < z THEN /\ r = "it" /\ only({k}) /\ Len(d) = z
                                     /\ \A i \in 1..z : i # op[3] + 1 => d[i] = c[i]
                                     /\ Val(d[op[3] + 1]) = op[4] * 10 + Norm(op[4], op[5])
                                     /\ (Managed(op[4]) => Id(d[op[3] + 1]) \notin AllIds(s))
                                     /\ o.r[2] <= op[3] /\ op[3] < o.r[2] + o.r[3]
                    ELSE r = "oor"
    /\ n = "setr" => IF op[6] > 0 /\ op[3] + op[6] <= z
                     THEN /\ only({k}) /\ Len(d) = z
                          /\ \A i \in 1..z : IF i - 1 \in op[3]..(op[3] + op[6] - 1)
                                             THEN Val(d[i]) = op[4] * 10 + Norm(op[4], op[5] + i - 1 - op[3])
                                             ELSE d[i] = c[i]
                     ELSE t = s
    /\ n \in {"push", "emp"} => only({k}) /\ Len(d) = z + 1 /\ SubSeq(d, 1, z) = c /\ Val(d[z + 1]) = op[3] * 10 + Norm(op[3], op[4])
    /\ n = "pushe" => only({k}) /\ d = Append(c, 0)
    /\ n \in {"ins", "inse"} =>
         LET m == IF n = "ins" THEN op[6] ELSE op[4] IN
         IF m = 0 \/ op[3] >= z THEN t = s
         ELSE /\ only({k}) /\ Len(d) = z + m
              /\ \A i \in 1..Len(d) : IF i <= op[3] THEN d[i] = c[i] ELSE IF i > op[3] + m THEN d[i] = c[i - m]
                                      ELSE IF n = "inse" THEN d[i] = 0 ELSE Val(d[i]) = op[4] * 10 + Norm(op[4], op[5] + i - 1 - op[3])
    /\ n \in {"sete", "relr"} => IF op[3] <= op[4] /\ op[4] < z THEN (r = "shared" \/ blank(op[3], op[4])) ELSE t = s
    /\ n = "rel" /\ r = "rel" => blank(op[3], op[3]) /\ o.r[2] = c[op[3] + 1]
    /\ n \in {"rel", "relr", "rela"} /\ r = "rel" => {o.r[Len(o.r)][i] : i \in 1..Len(o.r[Len(o.r)])} = gone
    /\ n = "era" => IF op[3] <= op[4] /\ op[4] < z
                    THEN /\ Len(d) = z - (op[4] - op[3] + 1)
                         /\ \A i \in 1..Len(d) : d[i] = IF i <= op[3] THEN c[i] ELSE c[i + op[4] - op[3] + 1]
                    ELSE r = "oor"
    /\ n = "res" => Len(d) = op[3] /\ \A i \in 1..op[3] : d[i] = IF i <= z THEN c[i] ELSE 0
    /\ n \in {"clear", "rela"} /\ r # "shared" => d = <<>> /\ only({k})
    /\ n \in {"tra", "swr"} =>
         LET j == op[5] + 1  e == s[j].c  g == t[j].c  a == op[3]  b == op[4]  q == op[6]
             ok == a <= b /\ b < z /\ q + b - a < Len(e) /\ j # k IN
         IF ~ok THEN t = s
         ELSE /\ only({k, j}) /\ Len(d) = z /\ Len(g) = Len(e)
              /\ \A i \in 1..z : d[i] = IF i - 1 \in a..b THEN (IF n = "tra" THEN 0 ELSE e[i - a + q]) ELSE c[i]
              /\ \A i \in 1..Len(e) : g[i] = IF i - 1 \in q..(q + b - a) THEN c[i - q + a] ELSE e[i]
              /\ n = "swr" => AllIds(t) = AllIds(s)
              /\ n = "tra" => AllIds(s) \ AllIds(t) = {Id(e[i]) : i \in (q + 1)..(q + b - a + 1)} \ {0}
    /\ n \in {"copy", "asg", "clo", "cloh", "cloa"} /\ r = "ok" =>
         LET j == op[3] + 1 IN /\ only({j}) /\ Vals(t[j].c) = Vals(c)
                               /\ (t # s => (Ids(t[j].c) \cap AllIds(s)) = {})
    /\ n \in {"copy", "asg"} /\ Has(c, NoCopy) => r = "ebe" \/ t = s
    /\ n \in {"move", "masg"} => LET j == op[3] + 1 IN t[j] = s[k] /\ ~t[k].alive /\ only({j, k})
    /\ n = "mclr" => LET j == op[3] + 1 IN t[j] = s[k] /\ t[k] = Slot(<<>>) /\ only({j, k})
    /\ n = "swp" => t[k] = s[op[3] + 1] /\ t[op[3] + 1] = s[k]
    /\ n \in {"eq", "eqn", "pos", "q", "col", "shrink", "det"} => t = s
    /\ n = "eq" => o.r[2] = ~o.r[3] /\ (o.r[2] => Vals(c) = Vals(s[op[3] + 1].c))
    /\ n = "eq" /\ ~o.r[2] /\ ~Has(c, Managed) => Vals(c) # Vals(s[op[3] + 1].c)
    /\ n = "pos" => \A i \in 2..Len(o.r) : LET x == o.r[i] IN
          IF op[3] > z THEN x = <<"oor">> ELSE IF op[3] = z THEN x = <<"end", 0>>
          ELSE x[1] + x[2] = op[3] /\ \A q \in x[1]..op[3] : Type(c[q + 1]) = Type(c[op[3] + 1])
    /\ n = "fdup" /\ op[3] < 5 /\ ~COW /\ op[5] < NFail(c) /\ t # s => FALSE
    /\ n = "col" /\ r = "col" =>
         LET mem == Selected(op[3])  v == o.r[5]  rows == {v[q][2] : q \in 1..Len(v)}  cols == {v[q][1] : q \in 1..Len(v)} IN
         /\ Len(v) = Cardinality(rows) * Cardinality(cols)
         /\ \A q \in 1..Len(v) : v[q][3] = s[mem[v[q][1] + 1]].c[v[q][2] + 1]
         /\ \A q \in 1..(Len(v) - 1) : v[q][2] < v[q + 1][2] \/ (v[q][2] = v[q + 1][2] /\ v[q][1] < v[q + 1][1])
    /\ n = "col" => (r = "col") = (\A i \in 1..Len(Selected(op[3])) : Len(s[Selected(op[3])[i]].c) > 0 /\ Len(s[Selected(op[3])[i]].c) = Len(s[Selected(op[3])[1]].c))

Next == \E op \in Ops :
    /\ PrintT("T " \o ToJson(<<hist, op>>))
    /\ \E o \in Steps(State, op) :
         LET t == Post(o.s) IN
         /\ Assert(LawOK(op, o, t), <<"law broken", hist, op, o>>)
         /\ s' = t
         /\ grp' = NewGrp(op, o)
         /\ nid' = nid + 20 * NSLOTS + 20
         /\ hist' = Append(hist, op)
=============================================================================
