------------------------------- MODULE ListEnum --------------------------------
(* List and collection functions as functions on sequences.                    *)
(* A state holds one input (list, array or tree) and a second one; a step      *)
(* applies one function: its value, the elements the given function sees (in   *)
(* order), and that both inputs are unchanged (unless they are arrays that     *)
(* map and sort work on in place).                                             *)
(* Values: <<"n">>, <<"i", n>>, <<"k", name>>, <<"b", 0|1>>, <<"l", items>>,   *)
(* <<"a", items>>, <<"t", <<<<key, value>>, ..>>>> with keys in order.         *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC, Json
CONSTANTS MODE
VARIABLES st

I(n) == <<"i", n>>
Nil == <<"n">>
B(x) == <<"b", IF x THEN 1 ELSE 0>>
K(s) == <<"k", s>>
L(s) == IF s = <<>> THEN Nil ELSE <<"l", s>>
A(s) == <<"a", s>>
T(s) == <<"t", s>>
IsList(v) == v[1] \in {"n", "l"}
Items(v) == IF v[1] = "n" THEN <<>> ELSE IF v[1] = "t" THEN [i \in DOMAIN v[2] |-> v[2][i][2]] ELSE v[2]
IsInt(v) == v[1] = "i"
Truthy(v) == ~(v[1] = "n" \/ v = <<"b", 0>>)
MinI(a, b) == IF a < b THEN a ELSE b
MaxI(a, b) == IF a > b THEN a ELSE b
Abs(n) == IF n < 0 THEN -n ELSE n
Like(c, s) == IF c[1] = "a" THEN A(s) ELSE L(s)

(* given functions *)
F(f, v) == CASE f = 1 -> IF IsInt(v) THEN I(v[2] * 2 + 1) ELSE v
             [] f = 2 -> Nil
             [] f = 3 -> L(<<v, v>>)
             [] f = 4 -> B(v[1] = "n")
P(p, v) == CASE p = 1 -> IsInt(v) [] p = 2 -> v[1] = "n" [] p = 3 -> Truthy(v) [] p = 4 -> FALSE [] p = 5 -> TRUE [] p = 6 -> IsInt(v) /\ v[2] < 2
FirstNot(p, a) == CHOOSE i \in 1..Len(a) + 1 : (i = Len(a) + 1 \/ ~P(p, a[i])) /\ \A j \in 1..i - 1 : P(p, a[j])
RECURSIVE SumOf(_), Flat(_), Rep(_, _, _), Get(_, _), Put(_, _, _), ZipT(_, _), MergeT(_, _), Eq(_, _)
SumOf(s) == IF s = <<>> THEN 0 ELSE s[1][2] + SumOf(Tail(s))
Flat(s) == IF s = <<>> THEN <<>> ELSE (IF s[1][1] \in {"l", "a", "t"} THEN Flat(Items(s[1])) ELSE <<s[1]>>) \o Flat(Tail(s))
Rep(s, x, y) == [i \in DOMAIN s |-> IF s[i] = x THEN y ELSE IF s[i][1] = "l" THEN L(Rep(s[i][2], x, y)) ELSE s[i]]
Order(s) == CASE s = "a" -> 1 [] s = "b" -> 2 [] s = "c" -> 3 [] s = "d" -> 4
Get(t, k) == IF t = <<>> THEN Nil ELSE IF t[1][1] = k THEN t[1][2] ELSE Get(Tail(t), k)
Put(t, k, v) == IF t = <<>> THEN <<<<k, v>>>> ELSE IF t[1][1] = k THEN <<<<k, v>>>> \o Tail(t)
                ELSE IF Order(t[1][1]) > Order(k) THEN <<<<k, v>>>> \o t ELSE <<t[1]>> \o Put(Tail(t), k, v)
ZipT(ks, vs) == IF ks = <<>> THEN <<>>      \* later keys win
               ELSE Put(ZipT(SubSeq(ks, 1, Len(ks) - 1), vs), ks[Len(ks)][2], IF Len(ks) <= Len(vs) THEN vs[Len(ks)] ELSE Nil)
MergeT(s, t) == IF t = <<>> THEN s ELSE MergeT(Put(s, t[1][1], t[1][2]), Tail(t))
Eq(v, w) == IF v[1] # w[1] THEN FALSE
            ELSE CASE v[1] = "n" -> TRUE
                   [] v[1] \in {"l", "a"} -> Len(v[2]) = Len(w[2]) /\ \A i \in DOMAIN v[2] : Eq(v[2][i], w[2][i])
                   [] v[1] = "t" -> Len(v[2]) = Len(w[2]) /\ \A i \in DOMAIN v[2] : v[2][i][1] = w[2][i][1] /\ Eq(v[2][i][2], w[2][i][2])
                   [] OTHER -> v[2] = w[2]
Ints(s) == \A i \in DOMAIN s : IsInt(s[i])
Range3(e, s, d) == IF d > 0 THEN [i \in 1..MaxI(0, (e - s + d - 1) \div d) |-> I(s + (i - 1) * d)]
                   ELSE [i \in 1..MaxI(0, (s - e - d - 1) \div (-d)) |-> I(s + (i - 1) * d)]
ErrV == <<"e", "">>

(* x and y the inputs; the value of op, or <<"skip">> where it is not defined here *)
Skip == <<"skip">>
R(v) == [v |-> v, s |-> <<>>, x |-> Skip]           \* the value, what the function saw, the changed x if any
S(v, s) == [v |-> v, s |-> s, x |-> Skip]
Col(x) == x[1] \in {"n", "l", "a", "t"}
NoTree(x) == x[1] \in {"n", "l", "a"}
Do(x, y, op) ==
  LET s == IF Col(x) THEN Items(x) ELSE <<>>  t == IF Col(y) THEN Items(y) ELSE <<>>  n == Len(s)  o == op[1] IN
  CASE o = "map" -> IF ~NoTree(x) THEN R(ErrV)
                    ELSE LET r == Like(x, [i \in 1..n |-> F(op[2], s[i])]) IN [v |-> r, s |-> s, x |-> IF x[1] = "a" THEN r ELSE Skip]
    [] o = "filter" -> IF ~Col(x) THEN R(ErrV) ELSE IF x[1] = "t" THEN S(T(SelectSeq(x[2], LAMBDA e : P(op[2], e[2]))), s) ELSE S(Like(x, SelectSeq(s, LAMBDA v : P(op[2], v))), s)
    [] o = "remove" -> IF ~Col(x) THEN R(ErrV) ELSE IF x[1] = "t" THEN S(T(SelectSeq(x[2], LAMBDA e : ~P(op[2], e[2]))), s) ELSE S(Like(x, SelectSeq(s, LAMBDA v : ~P(op[2], v))), s)
    [] o = "delete" -> IF ~NoTree(x) THEN R(Skip) ELSE R(Like(x, SelectSeq(s, LAMBDA v : v # op[2])))
    [] o = "reduce" -> IF ~Col(x) THEN R(ErrV) ELSE S(L(Reverse(s)), s)
    [] o = "for-each" -> IF x[1] \notin {"n", "l"} THEN R(Skip) ELSE S(IF n = 0 THEN Nil ELSE F(op[2], s[n]), s)
    [] o = "doseq" -> IF x[1] \notin {"n", "l"} THEN R(Skip) ELSE S(I(n), s)
    [] o = "every?" -> IF ~Col(x) THEN R(ErrV) ELSE S(B(\A i \in 1..n : P(op[2], s[i])), SubSeq(s, 1, MinI(n, FirstNot(op[2], s))))
    [] o = "count" -> IF ~Col(x) THEN R(ErrV) ELSE S(I(Len(SelectSeq(s, LAMBDA v : P(op[2], v)))), s)
    [] o = "count-all" -> IF ~Col(x) THEN R(ErrV) ELSE R(I(n))
    [] o = "sum" -> IF ~Col(x) \/ ~Ints(s) THEN R(Skip) ELSE R(I(SumOf(s)))
    [] o = "length" -> IF x[1] \notin {"l", "a", "t"} THEN R(Skip) ELSE R(I(n))
    [] o = "append" -> IF IsList(x) /\ IsList(y) THEN R(L(s \o t)) ELSE R(Skip)
    [] o = "reverse" -> IF IsList(x) THEN R(L(Reverse(s))) ELSE R(Skip)
    [] o = "nreverse" -> IF IsList(x) THEN R(L(Reverse(s))) ELSE R(Skip)      \* of a fresh copy
    [] o = "last-pair" -> IF IsList(x) THEN R(IF n = 0 THEN Nil ELSE L(<<s[n]>>)) ELSE R(Skip)
    [] o = "except-last" -> IF IsList(x) THEN R(IF n = 0 THEN Nil ELSE L(SubSeq(s, 1, n - 1))) ELSE R(Skip)
    [] o = "ref" -> IF x[1] = "l" THEN R(IF op[2] < 0 THEN ErrV ELSE IF op[2] < n THEN s[op[2] + 1] ELSE Nil) ELSE R(Skip)
    [] o = "take" -> IF IsList(x) /\ op[2] <= n THEN R(L(SubSeq(s, 1, MaxI(0, op[2])))) ELSE R(Skip)
    [] o = "drop" -> IF IsList(x) THEN R(L(SubSeq(s, MaxI(0, op[2]) + 1, n))) ELSE R(Skip)
    [] o = "cut" -> IF x[1] = "l" /\ op[3] <= n /\ op[2] <= n THEN R(L(SubSeq(s, MaxI(0, op[2]) + 1, op[3]))) ELSE R(Skip)
    [] o = "sort" -> IF ~NoTree(x) THEN R(ErrV) ELSE IF ~Ints(s) THEN R(Skip)
                     ELSE LET r == Like(x, SortSeq(s, LAMBDA v, w : v[2] < w[2])) IN [v |-> r, s |-> <<>>, x |-> IF x[1] = "a" THEN r ELSE Skip]
    [] o = "sort-by" -> IF ~IsList(x) \/ ~Ints(s) THEN R(Skip) ELSE R(L(SortSeq(s, LAMBDA v, w : v[2] > w[2])))
    [] o = "list?" -> IF x[1] = "n" THEN R(Skip) ELSE R(B(x[1] = "l"))
    [] o = "equal?" -> R(B(Eq(x, y)))
    [] o = "replace" -> IF IsList(x) THEN R(L(Rep(s, op[2], op[3]))) ELSE R(Skip)
    [] o = "flatten" -> IF Col(x) /\ x[1] # "n" THEN R(L(Flat(s))) ELSE R(Skip)
    [] o = "zip" -> IF IsList(x) /\ IsList(y) /\ \A i \in DOMAIN s : s[i][1] = "k" THEN R(T(ZipT(s, t))) ELSE R(Skip)
    [] o = "merge" -> IF x[1] = "t" /\ y[1] = "t" THEN R(T(MergeT(x[2], y[2]))) ELSE IF x[1] = "t" /\ y[1] = "n" THEN R(x) ELSE IF x[1] = "n" /\ y[1] = "t" THEN R(y) ELSE R(Skip)
    [] o = "tree+=" -> IF x[1] = "t" /\ Get(x[2], op[2])[1] \in {"n", "i"} THEN LET r == T(Put(x[2], op[2], I(op[3] + (IF Get(x[2], op[2])[1] = "i" THEN Get(x[2], op[2])[2] ELSE 0)))) IN [v |-> r, s |-> <<>>, x |-> r]
                       ELSE R(Skip)
    [] o = "range" -> R(L(Range3(op[2], op[3], op[4])))
    [] o = "min" -> IF IsList(x) /\ n > 0 /\ Ints(s) THEN R(s[CHOOSE i \in 1..n : \A j \in 1..n : s[i][2] <= s[j][2]]) ELSE R(Skip)
    [] o = "max" -> IF IsList(x) /\ n > 0 /\ Ints(s) THEN R(s[CHOOSE i \in 1..n : \A j \in 1..n : s[i][2] >= s[j][2]]) ELSE R(Skip)
    [] o = "collection?" -> R(B(x[1] \in {"l", "a", "t"}))

(* ------------------------------------------------------------- inputs --- *)
Elems == {I(1), I(2), Nil, I(-3)}
Seqs(E, n) == UNION {[1..k -> E] : k \in 0..n}
ListsOf(n) == {L(s) : s \in Seqs(Elems, n)}
Nested == {L(<<I(1), L(<<I(2), Nil>>), I(3)>>), L(<<L(<<L(<<I(1)>>)>>)>>), L(<<A(<<I(1), L(<<I(2)>>)>>), T(<<<<"a", I(4)>>>>), I(1)>>), L(<<L(<<I(1), I(2)>>), L(<<I(1)>>)>>),
           A(<<L(<<I(1), I(2)>>), A(<<>>), Nil>>), A(<<A(<<I(1)>>), I(2)>>), L(<<K("a"), K("b"), K("a")>>), L(<<K("b")>>), L(<<K("d"), K("c"), K("b"), K("a")>>),
           L(<<B(FALSE), Nil, B(TRUE)>>), L(<<L(<<I(1)>>), Nil>>), L(<<L(<<I(1), Nil>>)>>), A(<<L(<<I(1), Nil>>)>>), A(<<L(<<I(1)>>)>>)}
Trees == {T(<<>>), T(<<<<"a", I(1)>>>>), T(<<<<"a", I(2)>>, <<"b", Nil>>>>), T(<<<<"b", I(5)>>, <<"d", I(-1)>>>>), T(<<<<"a", L(<<I(1)>>)>>, <<"c", I(7)>>>>), T(<<<<"a", I(1)>>, <<"b", I(2)>>, <<"c", I(3)>>, <<"d", I(4)>>>>)}
Arrs == {A(s) : s \in Seqs(Elems, 2)} \cup {A(<<I(3), I(1), I(2), I(-3), I(9), I(2)>>), A(<<I(2), Nil, I(1), I(1)>>)}
Atoms == {I(5), K("a"), B(FALSE)}
Xs == ListsOf(4) \cup Nested \cup Trees \cup Arrs \cup Atoms
Ys == {L(s) : s \in Seqs({I(1), Nil}, 3)} \cup Nested \cup Trees \cup {A(<<I(1)>>), A(<<>>), A(<<Nil>>), I(5), L(<<I(1), I(2)>>), L(<<I(1), I(2), Nil>>)}
Ops1 == {<<"map", f>> : f \in 1..4} \cup {<<o, p>> : o \in {"filter", "remove", "every?", "count"}, p \in 1..6} \cup {<<"delete", e>> : e \in {I(1), Nil, I(-3), K("a")}}
        \cup {<<o>> : o \in {"reduce", "doseq", "count-all", "sum", "length", "reverse", "nreverse", "last-pair", "except-last", "sort", "sort-by", "list?", "flatten", "min", "max", "collection?"}}
        \cup {<<"for-each", f>> : f \in 1..3} \cup {<<"ref", i>> : i \in {-1, 0, 1, 2, 3, 4, 5}} \cup {<<o, i>> : o \in {"take", "drop"}, i \in {-1, 0, 1, 2, 3, 4, 9}}
        \cup {<<"cut", a, e>> : a \in {-2, 0, 1, 2, 4}, e \in {-1, 0, 1, 2, 3, 4}} \cup {<<"replace", e, f>> : e \in {I(1), I(2), K("a")}, f \in {I(9), Nil, L(<<I(8)>>)}}
        \cup {<<"tree+=", k, 3>> : k \in {"a", "b", "c"}}
Ops2 == {<<o>> : o \in {"append", "equal?", "zip", "merge"}}
Ranges == {<<"range", e, s, d>> : e \in {-3, 0, 1, 5}, s \in {-4, 0, 1, 5}, d \in {-3, -1, 1, 2}}

Mk(x, y, op, r) == [x |-> x, y |-> y, op |-> op, r |-> r, done |-> TRUE]
Try(op) == LET r == Do(st.x, st.y, op) IN (r.v # Skip) = TRUE /\ st' = Mk(st.x, st.y, op, r)
Init == st \in {[x |-> x, y |-> Nil, op |-> <<>>, r |-> <<>>, done |-> FALSE] : x \in Xs}
Next == /\ ~st.done
        /\ \/ \E op \in Ops1 : Try(op)
           \/ \E y \in Ys, op \in Ops2 : LET r == Do(st.x, y, op) IN (r.v # Skip) = TRUE /\ st' = Mk(st.x, y, op, r)
           \/ st.x[1] = "n" /\ \E op \in Ranges : Try(op)

(* random long inputs *)
RECURSIVE Rand(_, _)
Rand(n, k) == IF n = 0 THEN <<>> ELSE <<IF k = 1 THEN I(RandomElement(-1000..1000)) ELSE RandomElement({I(1), I(2), Nil, I(-3), K("a"), B(FALSE), L(<<I(1), Nil>>), L(<<I(2), L(<<I(1)>>)>>), A(<<I(1), Nil>>)})>> \o Rand(n - 1, k)
Kinds(s) == {L(s), L(s), L(s), A(s)}
Lens == {5, 6, 7, 8, 9, 10, 15, 16, 17, 31, 32, 33, 64, 100}
SimOps(n) == {<<"map", 1>>, <<"map", 3>>, <<"filter", RandomElement(1..6)>>, <<"remove", RandomElement(1..6)>>, <<"every?", RandomElement(1..6)>>, <<"count", RandomElement(1..6)>>, <<"delete", I(1)>>, <<"reduce">>, <<"doseq">>,
              <<"reverse">>, <<"nreverse">>, <<"last-pair">>, <<"except-last">>, <<"flatten">>, <<"ref", RandomElement(0..n + 1)>>, <<"take", RandomElement(0..n)>>, <<"drop", RandomElement(0..n + 1)>>,
              <<"cut", RandomElement(0..n), RandomElement(0..n)>>, <<"replace", I(1), I(9)>>, <<"append">>, <<"equal?">>, <<"sum">>, <<"sort">>, <<"sort-by">>, <<"min">>, <<"max">>, <<"length">>, <<"count-all">>}
SimInit == st \in {[x |-> x, y |-> Nil, op |-> <<>>, r |-> <<>>, done |-> FALSE] : x \in {Nil}}
SimNext == IF st.done THEN st' = [st EXCEPT !.done = FALSE, !.op = <<>>, !.r = <<>>]
           ELSE \E s \in {Rand(RandomElement(Lens), RandomElement(1..2))} : \E x \in {RandomElement(Kinds(s))} : \E y \in {IF RandomElement(1..2) = 1 THEN x ELSE L(Rand(3, 2))} :
                  \E op \in {RandomElement(SimOps(Len(s)))} : LET r == Do(x, y, op) IN st' = [x |-> x, y |-> y, op |-> op, r |-> r, done |-> TRUE]

(* laws the definitions must satisfy *)
Seen == st.done /\ st.r.v # Skip
Laws == Seen => /\ (st.op[1] \in {"sort", "sort-by", "reverse", "nreverse"} /\ Col(st.r.v)) => (Len(Items(st.r.v)) = Len(Items(st.x)) /\ Range(Items(st.r.v)) = Range(Items(st.x)))
                /\ (st.op[1] = "append") => Len(Items(st.r.v)) = Len(Items(st.x)) + Len(Items(st.y))
                /\ (st.op[1] \in {"filter", "remove", "delete"} /\ Col(st.r.v)) => Range(Items(st.r.v)) \subseteq Range(Items(st.x))
Emit == Seen => PrintT("@" \o ToJson([x |-> st.x, y |-> st.y, op |-> st.op, v |-> st.r.v, s |-> st.r.s, xx |-> IF st.r.x = Skip THEN st.x ELSE st.r.x]))
===============================================================================
