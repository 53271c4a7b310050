-------------------------------- MODULE ArrEnum --------------------------------
(* Arrays as sequences.  A behaviour is a history of operations on a few array *)
(* objects; each operation gives a value, changes one object, adds an object,  *)
(* or is an error that changes nothing.                                        *)
(* Elements: 0 #nil, -1 #f, -2 :k, -3 "s", -9 the array o3, n >= 1 the integer *)
(* n - 50.  Indices beyond +-1000000 stand for values around 2^31, 2^32, 2^63. *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC, Json
CONSTANTS DEPTH
VARIABLES st

Big == {1000000, 1000001, 1000002, 1000003}
Small == {-1000000, -1000001}
Plain == {0, -1, -2, -3, 51, 45}
Vals == Plain \cup {-9}
IsInt(v) == v >= 1
Nils(n) == [i \in 1..n |-> 0]
Res(os, r) == [os |-> os, r |-> r]
Fail(os) == Res(os, <<"err">>)
Self(os, o, d) == Res([os EXCEPT ![o] = d], <<"self">>)
New(os, d) == Res(Append(os, d), <<"new">>)
MaxI(a, b) == IF a > b THEN a ELSE b
MinI(a, b) == IF a < b THEN a ELSE b

(* the functions passed to map, filter and reduce *)
MapF(f, v) == CASE f = 1 -> 51 [] f = 2 -> IF IsInt(v) THEN v + 1 ELSE -2 [] f = 3 -> v [] f = 4 -> IF v \in {0, -1} THEN -1 ELSE 0
Pred(p, v) == CASE p = 1 -> IsInt(v) [] p = 2 -> v = 0 [] p = 3 -> v \notin {0, -1} [] p = 4 -> FALSE [] p = 5 -> TRUE
In(os, o, i) == i >= 0 /\ i < Len(os[o])
Sorted(s) == SortSeq(s, LAMBDA a, b : a < b)
Do(os, op) ==
  LET o == op[2]  a == os[o]  n == Len(a) IN
  CASE op[1] = "ref" -> IF In(os, o, op[3]) THEN Res(os, <<"val", a[op[3] + 1]>>) ELSE Fail(os)
    [] op[1] = "has" -> Res(os, <<"bool", In(os, o, op[3])>>)
    [] op[1] = "set" -> IF In(os, o, op[3]) THEN Self(os, o, [a EXCEPT ![op[3] + 1] = op[4]]) ELSE Fail(os)
    [] op[1] = "len" -> Res(os, <<"num", n>>)
    [] op[1] = "len!" -> IF op[3] < 0 \/ op[3] > 100000 THEN Fail(os)
                         ELSE Self(os, o, IF op[3] <= n THEN SubSeq(a, 1, op[3]) ELSE a \o Nils(op[3] - n))
    [] op[1] = "push" -> Self(os, o, Append(a, op[3]))
    [] op[1] = "swap" -> IF In(os, o, op[3]) /\ In(os, o, op[4]) THEN Self(os, o, [a EXCEPT ![op[3] + 1] = a[op[4] + 1], ![op[4] + 1] = a[op[3] + 1]])
                         ELSE Fail(os)
    [] op[1] = "fill" -> Self(os, o, [i \in 1..n |-> op[3]])
    [] op[1] = "append" -> New(os, a \o os[op[3]])
    [] op[1] = "dup" -> New(os, a)
    [] op[1] = "cut" -> LET f == MaxI(0, op[3])  e == MinI(n, op[4]) IN New(os, IF e <= f THEN <<>> ELSE SubSeq(a, f + 1, e))
    [] op[1] = "map" -> Self(os, o, [i \in 1..n |-> MapF(op[3], a[i])])
    [] op[1] = "filter" -> New(os, SelectSeq(a, LAMBDA v : Pred(op[3], v)))
    [] op[1] = "reduce" -> Res(os, <<"list", Reverse(a)>>)
    [] op[1] = "count" -> Res(os, <<"num", Len(SelectSeq(a, LAMBDA v : Pred(op[3], v)))>>)
    [] op[1] = "every" -> Res(os, <<"bool", \A i \in 1..n : Pred(op[3], a[i])>>)
    [] op[1] = "sort" -> IF \A i \in 1..n : IsInt(a[i]) THEN Self(os, o, Sorted(a)) ELSE Res(os, <<"skip">>)
    [] op[1] = "equal" -> Res(os, <<"bool", a = os[op[3]]>>)
    [] op[1] = "add" -> IF In(os, o, op[3]) /\ IsInt(a[op[3] + 1]) THEN Self(os, o, [a EXCEPT ![op[3] + 1] = @ + op[4]])
                        ELSE IF In(os, o, op[3]) /\ a[op[3] + 1] = 0 THEN Res(os, <<"skip">>) ELSE Fail(os)
    [] op[1] = "alloc" -> IF op[3] < 0 \/ op[3] > 100000 THEN Fail(os) ELSE New(os, Nils(op[3]))
    [] op[1] = "apply" -> Res(os, <<"list", a>>)

(* the elements a given function is applied to, in order *)
FirstNot(p, a) == CHOOSE i \in 1..Len(a) + 1 : (i = Len(a) + 1 \/ ~Pred(p, a[i])) /\ \A j \in 1..i - 1 : Pred(p, a[j])
Seen(os, op) == IF op[1] \in {"map", "filter", "count"} THEN os[op[2]]
                ELSE IF op[1] = "every" THEN SubSeq(os[op[2]], 1, MinI(Len(os[op[2]]), FirstNot(op[3], os[op[2]])))
                ELSE <<>>

(* ----------------------------------------------------------- behaviours --- *)
Pattern(n, k) == [i \in 1..n |-> <<45, 0, 51, -1, 60, 55, -2, 51, 0, 47>>[((i * 3 + k) % 10) + 1]]
Ints(n) == [i \in 1..n |-> 40 + ((i * 7) % 11)]
Start(n, k) == <<IF k = 0 THEN Ints(n) ELSE Pattern(n, k), Pattern(2, 5), <<51, -2>>>>
Idx(n) == {-1, 0, 1, n - 1, n, n + 1} \cup Big \cup Small
Lens(n) == {-1, 0, 1, n - 1, n, n + 1, n + 5} \cup Big \cup Small
Makers(os) == LET n == Len(os[1]) IN
  {<<"set", 1, i, v>> : i \in {0, n - 1}, v \in Vals} \cup {<<"len!", 1, l>> : l \in {0, n - 1, n + 2}} \cup {<<"push", 1, v>> : v \in {0, 51}}
  \cup {<<"append", 1, 2>>, <<"append", 1, 1>>, <<"dup", 1>>, <<"cut", 1, 1, n>>, <<"filter", 1, 3>>, <<"filter", 1, 4>>, <<"sort", 1>>, <<"map", 1, 2>>, <<"fill", 1, 0>>, <<"alloc", 1, 2>>}
  \cup (IF n > 1 THEN {<<"swap", 1, 0, n - 1>>} ELSE {})
Full(os) ==
  LET m == Len(os)  O == {1, m}  S(o) == Len(os[o]) IN
  UNION {{<<"ref", o, i>> : i \in Idx(S(o))} \cup {<<"has", o, i>> : i \in Idx(S(o))} \cup {<<"set", o, i, 51>> : i \in Idx(S(o))} : o \in O}
  \cup UNION {{<<"set", o, S(o) - 1, v>> : v \in Vals} : o \in {1}} \cup UNION {{<<"set", o, 0, v>> : v \in Plain} : o \in O}
  \cup {<<"push", o, v>> : o \in O, v \in Plain} \cup {<<"len", o>> : o \in O}
  \cup UNION {{<<"len!", o, l>> : l \in Lens(S(o))} : o \in O} \cup {<<"alloc", 1, l>> : l \in Lens(3)}
  \cup UNION {{<<"swap", o, i, j>> : i \in {0, 1, S(o) - 1, S(o)}, j \in {-1, 0, S(o) - 1, 1000003}} : o \in O}
  \cup {<<"fill", o, v>> : o \in O, v \in {0, -3}} \cup {<<"append", o, p>> : o \in O, p \in {1, 2, m}} \cup {<<"dup", o>> : o \in O}
  \cup UNION {{<<"cut", o, a, e>> : a \in Idx(S(o)), e \in {0, 1, S(o)}} \cup {<<"cut", o, a, e>> : a \in {0, 1, S(o)}, e \in Idx(S(o))} : o \in O}
  \cup {<<"map", o, f>> : o \in O, f \in 1..4} \cup {<<"filter", o, p>> : o \in O, p \in 1..5} \cup {<<"reduce", o>> : o \in O}
  \cup {<<"count", o, p>> : o \in O, p \in 1..5} \cup {<<"every", o, p>> : o \in O, p \in 1..5}
  \cup {<<"sort", o>> : o \in O} \cup {<<"equal", o, p>> : o \in O, p \in {1, 2, m}} \cup {<<"apply", o>> : o \in O}
  \cup UNION {{<<"add", o, i, x>> : i \in {-1, 0, S(o) - 1, S(o), 1000000}, x \in {1, 5}} : o \in O}

Step(op) == LET r == Do(st.os, op) IN [st EXCEPT !.os = r.os, !.ops = Append(@, op), !.rs = Append(@, r.r), !.tr = @ \o Seen(st.os, op)]
Init == st \in {[os |-> Start(n, k), start |-> Start(n, k), ops |-> <<>>, rs |-> <<>>, tr |-> <<>>, done |-> FALSE] : n \in {0, 1, 2, 3, 7, 16}, k \in 0..3}
Ok(op) == ~(op[1] \in {"set", "push", "fill"} /\ op[2] = 3 /\ -9 \in Range(op))
Next == /\ ~st.done
        /\ \/ Len(st.ops) < DEPTH - 1 /\ \E op \in Makers(st.os) : (Do(st.os, op).r # <<"skip">>) = TRUE /\ st' = Step(op)
           \/ \E op \in Full(st.os) : (Do(st.os, op).r # <<"skip">>) = TRUE /\ st' = [Step(op) EXCEPT !.done = TRUE]
(* random histories *)
Pick(os) == LET o == RandomElement(DOMAIN os)  p == RandomElement(DOMAIN os)  i == RandomElement(IF RandomElement(1..6) = 1 THEN Idx(Len(os[o])) ELSE 0..MaxI(0, Len(os[o]) - 1))
                j == RandomElement(0..MaxI(0, Len(os[o]) - 1))  v == RandomElement(Plain) w == RandomElement({1} \cup 40..60) IN
  RandomElement({<<"ref", o, i>>, <<"set", o, i, v>>, <<"set", o, i, w>>, <<"set", o, j, w>>, <<"swap", o, i, j>>, <<"push", o, v>>, <<"push", p, w>>, <<"add", o, i, 3>>,
                 <<"len!", o, i>>, <<"len!", o, Len(os[o]) + RandomElement(0..9)>>, <<"sort", p>>, <<"sort", o>>, <<"map", o, RandomElement(1..4)>>, <<"reduce", o>>, <<"equal", o, p>>} \cup
    (IF Len(os) > 8 THEN {<<"count", o, 1>>}
     ELSE {<<"append", o, p>>, <<"dup", o>>, <<"cut", o, j, Len(os[o]) - RandomElement(0..2)>>, <<"filter", o, RandomElement(1..3)>>, <<"alloc", o, RandomElement(0..5)>>}))
SimInit == st = [os |-> Start(6, 0), start |-> Start(6, 0), ops |-> <<>>, rs |-> <<>>, tr |-> <<>>, done |-> FALSE]
SimNext == /\ ~st.done
           /\ \E op \in {Pick(st.os)} : st' = [(IF Do(st.os, op).r = <<"skip">> \/ \E x \in DOMAIN st.os : Len(st.os[x]) > 40 THEN st ELSE Step(op)) EXCEPT !.done = (Len(st.ops) = DEPTH - 1)]

(* ---------------------------------------------------------- invariants --- *)
ErrKeeps == [][st'.ops # st.ops /\ st'.rs[Len(st'.rs)] = <<"err">> => st'.os = st.os]_st
OneChanges == [][Cardinality({o \in DOMAIN st.os : st'.os[o] # st.os[o]}) <= 1 /\ Len(st'.os) <= Len(st.os) + 1]_st
Emit == st.done => PrintT("@" \o ToJson([start |-> st.start, ops |-> st.ops, rs |-> st.rs, tr |-> st.tr, os |-> st.os]))
===============================================================================
