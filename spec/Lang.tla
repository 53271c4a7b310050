--------------------------------- MODULE Lang ---------------------------------
(* The evaluation rules of the core language as a big step semantics.         *)
(*                                                                            *)
(* A program is a tree of nodes [k, n, v, a]: kind, name(s), constant data,   *)
(* children.  The state holds the environment frames, the function values     *)
(* created so far, the trace of side effects and the remaining fuel.          *)
(* Evaluation ends with an outcome: "v" a value, "t" a thrown exception, "r"  *)
(* an early return on its way to the enclosing call, "f" fuel exhausted.      *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, SequencesExt
Str == INSTANCE Strings

(* ------------------------------------------------------------- values ----- *)
Nil == <<"n">>
I(n) == <<"i", n>>
B(b) == <<"b", b>>
K(s) == <<"k", s>>
L(s) == IF s = <<>> THEN Nil ELSE <<"l", s>>
Truthy(v) == ~(v[1] = "n" \/ (v[1] = "b" /\ ~v[2]))
IsInt(v) == v[1] = "i"
(* an exception value is the list that was thrown; traces may follow in it *)
Exc(s) == <<"xl", s>>
Native(kind) == Exc(<<K(kind), <<"any">>, <<"any">>>>)

(* -------------------------------------------------------------- nodes ----- *)
N(k, n, v, a) == [k |-> k, n |-> n, v |-> v, a |-> a]
C(v) == N("c", "", v, <<>>)
Num(n) == C(I(n))
V(x) == N("v", x, <<>>, <<>>)
P(op, a) == N("p", op, <<>>, a)                 \* built-in operation
Tr(x) == P("tr", <<x>>)
T(n) == Tr(Num(n))
Do(a) == N("do", "", <<>>, a)
If(a, b, c) == N("if", "", <<>>, <<a, b, c>>)
Def(x, e) == N("def", x, <<>>, <<e>>)
Set(x, e) == N("set", x, <<>>, <<e>>)
Let(names, inits, body) == N("let", names, <<>>, inits \o body)
Fn(ps, rest, body) == N("fn", ps, rest, body)
Call(f, args) == N("call", "", <<>>, <<f>> \o args)
While(c, body) == N("while", "", <<>>, <<c>> \o body)
Try(h, body) == N("try", "", <<>>, <<h>> \o body)
Ret(e) == N("ret", "", <<>>, <<e>>)

(* -------------------------------------------------------------- state ----- *)
(* fr: frames [p: parent, b: bindings]; fn: function values; tr: trace; fl: fuel *)
R(o, v, s) == [o |-> o, v |-> v, s |-> s]
OK(v, s) == R("v", v, s)
Thr(v, s) == R("t", v, s)
NoB == [x \in {} |-> 0]
Push(s, p, b) == [s EXCEPT !.fr = Append(@, [p |-> p, b |-> b])]
Top(s) == Len(s.fr)
RECURSIVE Find(_, _, _)
Find(s, e, x) == IF e = 0 THEN 0 ELSE IF x \in DOMAIN s.fr[e].b THEN e ELSE Find(s, s.fr[e].p, x)
Bind(s, e, x, v) == [s EXCEPT !.fr[e].b = (x :> v) @@ @]
Log(s, v) == [s EXCEPT !.tr = Append(@, v)]
Burn(s) == [s EXCEPT !.fl = @ - 1]

(* built-in operations on values *)
TypeErr(s) == Thr(Native("type-error"), s)
Item(v, i) == IF v[1] \in {"l", "xl"} THEN (IF Len(v[2]) >= i THEN v[2][i] ELSE Nil) ELSE Nil
Arith(op, a, b) ==
  CASE ~(a[1] \in {"i", "n"} /\ b[1] \in {"i", "n"}) -> <<"err">>
    [] op = "+" -> IF ~IsInt(a) THEN I(0) ELSE IF ~IsInt(b) THEN a ELSE I(a[2] + b[2])
    [] op = "-" -> IF ~IsInt(a) THEN <<"err">> ELSE IF ~IsInt(b) THEN I(-a[2]) ELSE I(a[2] - b[2])
(* lists are compared by identity, which values do not have here: such programs are skipped *)
Opaque(a) == a[1] \in {"l", "xl"}
Eq(a, b) == IF a[1] # b[1] THEN FALSE ELSE a = b
Less(a, b) == IsInt(a) /\ IsInt(b) /\ a[2] < b[2]
Arg(as, i) == IF i <= Len(as) THEN as[i] ELSE Nil
Ints2(as, s, v) == IF IsInt(Arg(as, 1)) /\ IsInt(Arg(as, 2)) THEN OK(I(v), s) ELSE Thr(Native("type-error"), s)
BoundTo(es, k) == {i \in DOMAIN es : es[i][1] = k}
(* the entries of a tree made from k1 v1 k2 v2 ..: the last value of a key counts *)
RECURSIVE PList(_)
PList(as) == IF as = <<>> \/ as[1][1] = "n" THEN <<>>
             ELSE LET r == PList(SubSeq(as, 3, Len(as))) IN IF BoundTo(r, as[1][2]) # {} THEN r ELSE <<<<as[1][2], Arg(as, 2)>>>> \o r
PListOk(as) == \A i \in DOMAIN as : (i % 2 = 1 /\ \A j \in 1..i : j % 2 = 1 => as[j][1] # "n") => as[i][1] \in {"k", "y"}
Ref(c, k) == IF BoundTo(c[2], k[2]) = {} THEN Nil ELSE c[2][CHOOSE i \in BoundTo(c[2], k[2]) : TRUE][2]
Prim(op, as, s) ==
  CASE op = "tr" -> OK(Arg(as, 1), Log(s, Arg(as, 1)))
    [] op = "list" -> OK(L(as), s)
    [] op \in {"+", "-"} -> LET r == Arith(op, Arg(as, 1), Arg(as, 2)) IN IF r[1] = "err" THEN Thr(Native("type-error|arity-error"), s) ELSE OK(r, s)
    [] op = "<" -> OK(B(Less(Arg(as, 1), Arg(as, 2))), s)
    [] op = "=" -> IF Opaque(Arg(as, 1)) /\ Opaque(Arg(as, 2)) THEN R("f", Nil, s) ELSE OK(B(Eq(Arg(as, 1), Arg(as, 2))), s)
    [] op = "not" -> OK(B(~Truthy(Arg(as, 1))), s)
    [] op = "nil?" -> OK(B(Arg(as, 1)[1] = "n"), s)
    [] op = "car" -> OK(Item(Arg(as, 1), 1), s)
    [] op \in {"cadr", "cdr"} /\ Arg(as, 1)[1] = "xl" -> R("f", Nil, s)   \* may show the stack trace
    [] op = "cadr" -> OK(Item(Arg(as, 1), 2), s)
    [] op = "cdr" -> OK(IF Arg(as, 1)[1] = "l" THEN L(Tail(Arg(as, 1)[2])) ELSE Nil, s)
    [] op = "cons" -> IF ~(Arg(as, 2)[1] \in {"l", "n"}) THEN R("f", Nil, s) ELSE OK(<<"l", <<Arg(as, 1)>> \o (IF Arg(as, 2)[1] = "l" THEN Arg(as, 2)[2] ELSE <<>>)>>, s)
    [] op = "add/int" -> Ints2(as, s, Arg(as, 1)[2] + Arg(as, 2)[2])
    [] op = "sub/int" -> Ints2(as, s, Arg(as, 1)[2] - Arg(as, 2)[2])
    [] op = "inc/int" -> IF IsInt(Arg(as, 1)) THEN OK(I(Arg(as, 1)[2] + 1), s) ELSE Thr(Native("type-error"), s)
    [] op = "array/new" -> OK(<<"a", as>>, s)
    [] op = "tree/new" -> IF PListOk(as) THEN OK(<<"t", PList(as)>>, s) ELSE Thr(Native("type-error"), s)
    [] op = "ref" -> IF Arg(as, 1)[1] = "t" /\ Arg(as, 2)[1] = "k" THEN OK(Ref(as[1], as[2]), s) ELSE IF Arg(as, 1)[1] = "n" THEN R("f", Nil, s) ELSE Thr(Native("type-error|arity-error"), s)
    (* an argument not given is nil, whatever was on the stack before *)
    [] op = ":cut" -> IF Arg(as, 1)[1] \in {"s", "u"} /\ IsInt(Arg(as, 2))
                      THEN OK(<<as[1][1], Str!Cut(as[1][2], as[2][2], IF IsInt(Arg(as, 3)) THEN as[3] ELSE Str!NoArg)>>, s) ELSE TypeErr(s)
    [] op \in {":index-of", ":last-index-of"} ->
         IF Arg(as, 1)[1] = "s" /\ Arg(as, 2)[1] = "s"
         THEN LET from == IF IsInt(Arg(as, 3)) THEN as[3] ELSE Str!NoArg IN
              OK(I(IF op = ":index-of" THEN Str!IndexOf(as[1][2], as[2][2], from) ELSE Str!LastIndexOf(as[1][2], as[2][2], from)), s)
         ELSE TypeErr(s)
    [] op = "buffer/allocate" -> IF IsInt(Arg(as, 1)) THEN OK(<<"u", [i \in 1..as[1][2] |-> 0]>>, s) ELSE TypeErr(s)
    [] op = "buffer/copy" ->   \* only into buffers nothing else refers to
         IF Arg(as, 1)[1] = "u" /\ Arg(as, 2)[1] \in {"s", "u"} /\ IsInt(Arg(as, 3)) /\ as[3][2] >= 0
         THEN LET n == IF IsInt(Arg(as, 4)) THEN as[4][2] ELSE Len(as[2][2])  o == as[3][2] IN
              IF n > Len(as[2][2]) \/ o + n > Len(as[1][2]) THEN Thr(Native("out-of-bounds"), s)
              ELSE OK(<<"u", [i \in DOMAIN as[1][2] |-> IF i > o /\ i <= o + n THEN as[2][2][i - o] ELSE as[1][2][i]]>>, s)
         ELSE TypeErr(s)
    [] op = "buffer->string" ->
         IF Arg(as, 1)[1] = "u"
         THEN LET b == as[1][2]  n == IF IsInt(Arg(as, 2)) THEN Str!MinI(as[2][2], Len(b)) ELSE Len(b)  o == IF IsInt(Arg(as, 3)) THEN as[3][2] ELSE 0 IN
              IF o < 0 THEN Thr(Native("out-of-bounds"), s) ELSE IF n < 0 THEN TypeErr(s) ELSE OK(<<"s", SubSeq(b, o + 1, n)>>, s)
         ELSE TypeErr(s)
    [] op = ":has?" -> IF Arg(as, 1)[1] = "t" /\ Arg(as, 2)[1] = "k" THEN OK(B(BoundTo(as[1][2], as[2][2]) # {}), s)
                       ELSE IF Arg(as, 1)[1] = "a" THEN (IF IsInt(Arg(as, 2)) THEN OK(B(as[2][2] >= 0 /\ as[2][2] < Len(as[1][2])), s) ELSE TypeErr(s))
                       ELSE R("f", Nil, s)
    (* these names are bound wherever a program of CallEnum looks *)
    [] op = "resolves?" -> IF Arg(as, 1)[1] = "y" THEN (IF Arg(as, 2)[1] \in {"n", "fn"} THEN OK(B(as[1][2] \in {"a1", "x0", "list"}), s) ELSE TypeErr(s)) ELSE OK(B(FALSE), s)
    [] op = "throw" -> LET v == Arg(as, 1) IN Thr(IF v[1] = "l" THEN Exc(v[2]) ELSE IF v[1] = "xl" THEN v ELSE Exc(<<v>>), s)

(* ---------------------------------------------------------- evaluation ---- *)
RECURSIVE Ev(_, _, _), EvArgs(_, _, _, _), EvBody(_, _, _, _), EvAnd(_, _, _, _), EvOr(_, _, _, _), Loop(_, _, _, _), EvLet(_, _, _, _),
          EvCond(_, _, _, _), Dotimes(_, _, _), Doseq(_, _, _, _, _), Apply(_, _, _)

(* arguments, left to right, each once: the value of the outcome is the sequence *)
EvArgs(a, e, s, acc) == IF a = <<>> THEN OK(acc, s)
                        ELSE LET r == Ev(a[1], e, s) IN IF r.o # "v" THEN r ELSE EvArgs(Tail(a), e, r.s, Append(acc, r.v))
(* a constant or variable whose value is not used is not evaluated at all *)
Atom(x) == x.k \in {"c", "v", "nat"}
NoAtoms(a) == SelectSeq(a, LAMBDA x : ~Atom(x))
EvBody(a, e, s, last) == IF a = <<>> THEN OK(last, s)
                         ELSE IF Atom(a[1]) /\ Len(a) > 1 THEN EvBody(Tail(a), e, s, last)
                         ELSE LET r == Ev(a[1], e, s) IN IF r.o # "v" THEN r ELSE EvBody(Tail(a), e, r.s, r.v)
EvAnd(a, e, s, last) == IF a = <<>> THEN OK(last, s)
                        ELSE LET r == Ev(a[1], e, s) IN IF r.o # "v" \/ ~Truthy(r.v) THEN r ELSE EvAnd(Tail(a), e, r.s, r.v)
EvOr(a, e, s, last) == IF a = <<>> THEN OK(last, s)
                       ELSE LET r == Ev(a[1], e, s) IN IF r.o # "v" \/ Truthy(r.v) THEN r ELSE EvOr(Tail(a), e, r.s, B(FALSE))
Loop(x, e, s, last) ==
  IF s.fl <= 0 THEN R("f", Nil, s)
  ELSE LET c == Ev(x.a[1], e, Burn(s)) IN
       IF c.o # "v" THEN c ELSE IF ~Truthy(c.v) THEN OK(last, c.s)
       ELSE LET b == EvBody(Tail(x.a), e, c.s, Nil) IN IF b.o # "v" THEN b ELSE Loop(x, e, b.s, b.v)
EvLet(x, i, e, s) ==   \* bindings one after the other, in the new frame e
  IF i > Len(x.n) THEN EvBody(SubSeq(x.a, Len(x.n) + 1, Len(x.a)), e, s, Nil)
  ELSE LET r == Ev(x.a[i], e, s) IN IF r.o # "v" THEN r ELSE EvLet(x, i + 1, e, Bind(r.s, e, x.n[i], r.v))
EvCond(a, i, e, s) == IF i > Len(a) THEN OK(Nil, s)
                      ELSE LET r == Ev(a[i], e, s) IN IF r.o # "v" THEN r ELSE IF Truthy(r.v) THEN Ev(a[i + 1], e, r.s) ELSE EvCond(a, i + 2, e, r.s)
(* (dotimes (x n) body): x counts up in the current scope, n is evaluated each time *)
Dotimes(x, e, s) ==
  IF s.fl <= 0 THEN R("f", Nil, s)
  ELSE LET cur == s.fr[Find(s, e, x.n)].b[x.n]  n == Ev(x.a[1], e, Burn(s)) IN IF n.o # "v" THEN n
       ELSE IF ~Less(cur, n.v) THEN OK(Nil, n.s)
       ELSE LET b == EvBody(NoAtoms(Tail(x.a)), e, n.s, Nil) IN IF b.o # "v" THEN b
            ELSE LET g == Find(b.s, e, x.n)  c == b.s.fr[g].b[x.n] IN
                 IF ~IsInt(c) THEN Thr(Native("type-error"), b.s) ELSE Dotimes(x, e, Bind(b.s, g, x.n, I(c[2] + 1)))
(* (doseq (x l) body): one scope for all rounds *)
Doseq(x, items, i, e, s) ==
  IF s.fl <= 0 THEN R("f", Nil, s)
  ELSE IF i > Len(items) THEN OK(Nil, s)
  ELSE LET b == EvBody(NoAtoms(Tail(x.a)), e, Bind(Burn(s), e, x.n, items[i]), Nil) IN IF b.o # "v" THEN b ELSE Doseq(x, items, i + 1, e, b.s)

Params(c, as) == LET n == Len(c.n) IN
  [x \in {c.n[i] : i \in 1..n} \cup (IF c.v = "" THEN {} ELSE {c.v}) |->
     IF x = c.v THEN L(SubSeq(as, n + 1, Len(as))) ELSE Arg(as, CHOOSE i \in 1..n : c.n[i] = x /\ \A j \in (i + 1)..n : c.n[j] # x)]
Apply(f, as, s) ==
  IF s.fl <= 0 THEN R("f", Nil, s)
  ELSE CASE f[1] = "fn" -> LET c == s.fn[f[2]]
                               s1 == Push(Burn(s), c.e, Params(c, as))
                               r == EvBody(c.a, Top(s1), s1, Nil)
                           IN IF r.o = "r" THEN OK(r.v, r.s) ELSE r
         [] f[1] = "nat" -> Prim(f[2], as, s)
         [] OTHER -> IF s.ev THEN R("f", Nil, s) ELSE Thr(Native("type-error"), s)   \* eval may report it while compiling, before any effect

Ev(x, e, s) ==
  CASE x.k \in {"c", "q"} -> OK(x.v, s)
    [] x.k = "v" -> LET f == Find(s, e, x.n) IN IF f = 0 THEN Thr(Native("unbound-variable"), s) ELSE OK(s.fr[f].b[x.n], s)
    [] x.k = "nat" -> OK(<<"nat", x.n>>, s)                  \* a built-in as a value
    [] x.k = "p" -> LET r == EvArgs(x.a, e, s, <<>>) IN IF r.o # "v" THEN r ELSE Prim(x.n, r.v, r.s)
    [] x.k = "do" -> EvBody(x.a, e, s, Nil)
    [] x.k = "if" -> LET r == Ev(x.a[1], e, s) IN IF r.o # "v" THEN r ELSE IF Truthy(r.v) THEN Ev(x.a[2], e, r.s)
                                                  ELSE IF Len(x.a) < 3 THEN OK(Nil, r.s) ELSE Ev(x.a[3], e, r.s)
    [] x.k \in {"when", "whennot"} -> LET r == Ev(x.a[1], e, s) IN IF r.o # "v" THEN r
                                           ELSE IF Truthy(r.v) = (x.k = "when") THEN EvBody(Tail(x.a), e, r.s, Nil) ELSE OK(Nil, r.s)
    [] x.k = "and" -> EvAnd(x.a, e, s, Nil)
    [] x.k = "or" -> EvOr(x.a, e, s, B(FALSE))
    [] x.k = "cond" -> EvCond(x.a, 1, e, s)
    [] x.k = "case" -> LET s1 == Push(s, e, NoB)  r == Ev(x.a[1], Top(s1), s1) IN IF r.o # "v" THEN r ELSE   \* in a scope of its own
                       LET hit == {i \in DOMAIN x.v : x.v[i] = <<>> \/ \E j \in DOMAIN x.v[i] : Eq(x.v[i][j], r.v)} IN
                       IF hit = {} THEN OK(Nil, r.s) ELSE Ev(x.a[1 + CHOOSE i \in hit : \A j \in hit : i <= j], Top(s1), r.s)
    [] x.k = "def" -> LET r == Ev(x.a[1], e, s) IN IF r.o # "v" THEN r ELSE OK(r.v, Bind(r.s, e, x.n, r.v))
    [] x.k = "set" -> LET r == Ev(x.a[1], e, s) IN IF r.o # "v" THEN r
                      ELSE LET f == Find(r.s, e, x.n) IN IF f = 0 THEN Thr(Native("unbound-variable"), r.s) ELSE OK(r.v, Bind(r.s, f, x.n, r.v))
    [] x.k = "let" -> LET s1 == Push(s, e, NoB) IN EvLet(x, 1, Top(s1), s1)
    [] x.k = "while" -> Loop(x, e, s, Nil)
    [] x.k = "dotimes" -> Dotimes(x, e, Bind(s, e, x.n, I(0)))
    [] x.k = "doseq" -> LET s1 == Push(s, e, NoB)  r == Ev(x.a[1], Top(s1), s1) IN IF r.o # "v" THEN r
                        ELSE IF r.v[1] = "l" THEN Doseq(x, r.v[2], 1, Top(s1), r.s) ELSE IF ~Truthy(r.v) THEN OK(Nil, r.s) ELSE R("f", Nil, s)
    [] x.k = "fn" -> OK(<<"fn", Len(s.fn) + 1>>, [s EXCEPT !.fn = Append(@, [e |-> e, n |-> x.n, v |-> x.v, a |-> x.a])])
    [] x.k = "call" -> LET r == EvArgs(x.a, e, s, <<>>) IN IF r.o # "v" THEN r ELSE Apply(r.v[1], Tail(r.v), r.s)
    [] x.k = "apply" -> LET r == EvArgs(x.a, e, s, <<>>) IN IF r.o # "v" THEN r
                        ELSE Apply(r.v[1], IF r.v[2][1] = "l" THEN r.v[2][2] ELSE <<>>, r.s)
    (* (:m object args..): the object has the function under that name, itself or through its prototype *)
    [] x.k \in {"meth", "methkw", "methapply", "methproto"} -> LET r == EvArgs(x.a, e, s, <<>>) IN IF r.o # "v" THEN r
                        ELSE LET o == <<"t", <<<<x.n, r.v[1]>>>>>> IN
                             Apply(r.v[1], <<IF x.k = "methproto" THEN <<"t", <<<<"prototype*", o>>>>>> ELSE o>> \o Tail(r.v), r.s)
    (* looking at the scopes: (resolves? 'x), (:has? (current-closure) 'x) and (ref (current-closure) 'x) *)
    [] x.k \in {"res", "has"} -> OK(B(Find(s, e, x.n) # 0), s)
    [] x.k = "cref" -> LET f == Find(s, e, x.n) IN IF f = 0 THEN R("f", Nil, s) ELSE OK(s.fr[f].b[x.n], s)
    [] x.k = "ret" -> LET r == Ev(x.a[1], e, s) IN IF r.o # "v" THEN r ELSE R("r", r.v, r.s)
    [] x.k = "eval" -> LET s1 == [Push(s, e, NoB) EXCEPT !.ev = TRUE]  r == Ev(x.a[1], Top(s1), s1) IN IF r.o = "r" THEN OK(r.v, r.s) ELSE r
    [] x.k = "try" -> LET h == Ev(x.a[1], e, s) IN IF h.o # "v" THEN h
                      ELSE LET s1 == Push(h.s, e, NoB)
                               r == EvBody(Tail(x.a), Top(s1), s1, Nil)
                           IN IF r.o = "t" THEN Apply(h.v, <<r.v>>, r.s) ELSE r

S0 == [fr |-> <<[p |-> 0, b |-> NoB]>>, fn |-> <<>>, tr |-> <<>>, fl |-> 400, ev |-> FALSE]
(* A program is the body of a call: an early return ends it *)
Run(x) == LET r == Ev(x, 1, S0) IN
          IF r.o = "f" THEN [o |-> "f", v |-> Nil, tr |-> <<>>]
          ELSE [o |-> IF r.o = "t" THEN "t" ELSE "v", v |-> r.v, tr |-> r.s.tr]
===============================================================================
