--------------------------------- MODULE Macro ---------------------------------
(* Quasiquotation and macros.  Programs are data: numbers, keywords, symbols   *)
(* and lists.  Ev says what a program means: a call of a macro means what the  *)
(* form built by the macro's body from the unevaluated arguments means, a      *)
(* quasiquoted template is the template with the unquoted parts replaced by    *)
(* their values and the spliced ones by their elements, quoted data is itself. *)
(* The control macros of the library (when, cond, case, dotimes, doseq, ->,    *)
(* ...) are given by what is evaluated how often and in which order.           *)
(* Every quasiquote inside a template raises the level by one, every unquote   *)
(* or splice lowers it, and what is at level zero is evaluated.                *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS DEPTH, WIDTH
VARIABLES st

Mod(a, b) == a % b
(* ------------------------------------------------------------------ data --- *)
Nil == <<"n">>
I(n) == <<"i", n>>
B(b) == <<"b", b>>
K(s) == <<"k", s>>
Y(s) == <<"y", s>>
S(s) == <<"s", s>>
X(s) == <<"x", s>>              \* an array or tree literal, by name
LD(es, t) == IF es = <<>> THEN t ELSE IF t[1] = "l" THEN <<"l", es \o t[2], t[3]>> ELSE <<"l", es, t>>
LL(es) == LD(es, Nil)
IsL(v) == v[1] = "l"
IsY(v, s) == v[1] = "y" /\ v[2] = s
Truthy(v) == ~(v[1] = "n" \/ (v[1] = "b" /\ v[2] = 0))
Car(v) == IF IsL(v) THEN v[2][1] ELSE Nil
Cdr(v) == IF ~IsL(v) THEN Nil ELSE IF Len(v[2]) = 1 THEN v[3] ELSE <<"l", Tail(v[2]), v[3]>>
Cadr(v) == Car(Cdr(v))
Cons(a, d) == IF IsL(d) THEN <<"l", <<a>> \o d[2], d[3]>> ELSE <<"l", <<a>>, d>>
AppendL(a, d) == IF ~IsL(a) THEN d ELSE IF IsL(d) THEN <<"l", a[2] \o d[2], d[3]>> ELSE <<"l", a[2], d>>
Els(v) == IF IsL(v) THEN v[2] ELSE <<>>
From(v, n) == SubSeq(Els(v), n, Len(Els(v)))
Same(a, b) == IF a[1] # b[1] THEN FALSE ELSE IF a[1] = "l" THEN FALSE ELSE IF a[1] = "n" THEN TRUE ELSE a[2] = b[2]
Qu(x) == LL(<<Y("quote"), x>>)
QQ(x) == LL(<<Y("quasiquote"), x>>)
UQ(x) == LL(<<Y("unquote"), x>>)
US(x) == LL(<<Y("unquote-splicing"), x>>)
Call(f, es) == LL(<<Y(f)>> \o es)

(* ---------------------------------------------------------------- macros --- *)
(* name -> parameters, rest parameter, body *)
Vm(ps, r, b) == [ps |-> ps, r |-> r, b |-> b]
Macros == [
  vmquote |-> Vm(<<"p">>, "q", QQ(Qu(UQ(Y("p"))))),
  vmall |-> Vm(<<>>, "q", QQ(LL(<<Y("list"), US(Y("q"))>>))),
  vmdata |-> Vm(<<>>, "q", Call("list", <<Qu(Y("quote")), Y("q")>>)),
  vmtwice |-> Vm(<<"p">>, "", QQ(Call("list", <<UQ(Y("p")), UQ(Y("p"))>>))),
  vmonce |-> Vm(<<"p">>, "", Call("do", <<Call("def", <<Y("g"), Call("gensym", <<>>)>>), QQ(Call("let*", <<Call("def", <<UQ(Y("g")), UQ(Y("p"))>>), Call("list", <<UQ(Y("g")), UQ(Y("g"))>>)>>))>>)),
  vmswap |-> Vm(<<"p", "q", "r">>, "", QQ(Call("if", <<UQ(Y("p")), UQ(Y("r")), UQ(Y("q"))>>))),
  vmnest |-> Vm(<<"p">>, "q", Call("if", <<Y("q"), QQ(Call("list", <<UQ(Y("p")), Call("vmnest", <<US(Y("q"))>>)>>)), Y("p")>>)),
  vmback |-> Vm(<<"p">>, "q", Call("if", <<Y("q"), QQ(Call("cons", <<Call("vmback", <<US(Y("q"))>>), UQ(Y("p"))>>)), Y("p")>>)),
  vmkeep |-> Vm(<<"p">>, "", QQ(Call("vmall", <<UQ(Y("p")), Qu(Call("vmall", <<UQ(Y("p")), Y("va")>>))>>))),
  vmtemp |-> Vm(<<"p", "q">>, "", Call("list", <<Qu(Y("quasiquote")), Call("list", <<Y("p"), Call("list", <<Qu(Y("unquote")), Y("q")>>)>>)>>)),
  vmtimes |-> Vm(<<"p">>, "q", Call("do", <<Call("def", <<Y("g"), Call("gensym", <<>>)>>), QQ(Call("dotimes", <<LL(<<UQ(Y("g")), UQ(Y("p")), UQ(Y("g"))>>), US(Y("q"))>>))>>)),
  vmid |-> Vm(<<"p">>, "", Y("p")),
  vmnone |-> Vm(<<>>, "", Nil),
  vmfalse |-> Vm(<<>>, "", QQ(B(0))),
  vmfalses |-> Vm(<<>>, "", QQ(Call("list", <<B(0), B(1), Nil>>))),
  vmvar |-> Vm(<<>>, "", Qu(Y("va"))),
  vmlet |-> Vm(<<"p">>, "q", QQ(Call("let", <<LL(<<LL(<<UQ(Call("car", <<Y("p")>>)), UQ(Call("car", <<Call("cdr", <<Y("p")>>)>>))>>)>>), US(Y("q"))>>))),
  vmdot |-> Vm(<<"p">>, "q", QQ(LD(<<Y("list"), UQ(Y("p"))>>, UQ(Y("q"))))),
  vmwhen |-> Vm(<<"p">>, "q", QQ(Call("cond", <<LD(<<UQ(Y("p"))>>, UQ(Y("q"))), LL(<<B(1), K("otherwise")>>)>>))),
  vmlast |-> Vm(<<"p">>, "q", Call("if", <<Y("q"), Call("cons", <<Qu(Y("vmlast")), Y("q")>>), Y("p")>>))]
NoMac == Vm(<<>>, "", Nil)
MacroNames == DOMAIN Macros

(* ------------------------------------------------------------- evaluation --- *)
(* env: scopes, innermost last; tr: the trace; g: generated symbols; fl: fuel; mac: the program's own macro *)
R(o, v, s) == [o |-> o, v |-> v, s |-> s]
OK(v, s) == R("v", v, s)
Err(s) == R("t", Nil, s)
NoB == [x \in {} |-> Nil]
Burn(s) == [s EXCEPT !.fl = @ - 1]
RECURSIVE Scope(_, _, _)
Scope(env, i, x) == IF i = 0 THEN 0 ELSE IF x \in DOMAIN env[i] THEN i ELSE Scope(env, i - 1, x)
Bind(s, i, x, v) == [s EXCEPT !.env[i] = (x :> v) @@ @]
Def(s, x, v) == Bind(s, Len(s.env), x, v)
Push(s) == [s EXCEPT !.env = Append(@, NoB)]
Drop(s) == [s EXCEPT !.env = SubSeq(@, 1, Len(@) - 1)]
Log(s, v) == [s EXCEPT !.tr = Append(@, v)]
IsMac(s, n) == n \in MacroNames \/ (n = "vmown" /\ s.mac # NoMac)
Mac(s, n) == IF n = "vmown" THEN s.mac ELSE Macros[n]
Num(v) == IF v[1] = "n" THEN 0 ELSE v[2]
Nums(vs) == \A i \in 1..Len(vs) : vs[i][1] \in {"i", "n"}
RECURSIVE Sum(_)
Sum(vs) == IF vs = <<>> THEN 0 ELSE Num(vs[1]) + Sum(Tail(vs))

RECURSIVE Ev(_, _), Seqn(_, _, _), Args(_, _, _), Q(_, _, _), Cond(_, _), Case(_, _, _), Times(_, _, _, _), Each(_, _, _, _), Lets(_, _), Thread(_, _), Keys(_, _, _), AndF(_, _, _), OrF(_, _)
Then(r, F(_, _)) == IF r.o # "v" THEN r ELSE F(r.v, r.s)
Seqn(es, s, v) == IF es = <<>> THEN OK(v, s) ELSE LET r == Ev(es[1], s) IN IF r.o # "v" THEN r ELSE Seqn(Tail(es), r.s, r.v)
Args(es, s, vs) == IF es = <<>> THEN OK(vs, s) ELSE LET r == Ev(es[1], s) IN IF r.o # "v" THEN r ELSE Args(Tail(es), r.s, Append(vs, r.v))
(* the form a macro call stands for *)
RECURSIVE Pars(_, _, _)
Pars(ps, args, b) == IF ps = <<>> THEN b ELSE Pars(Tail(ps), IF args = <<>> THEN <<>> ELSE Tail(args), (ps[1] :> (IF args = <<>> THEN Nil ELSE args[1])) @@ b)
Expand(m, args, s) ==
  LET b0 == Pars(m.ps, args, NoB)
      b1 == IF m.r = "" THEN b0 ELSE (m.r :> LL(SubSeq(args, Len(m.ps) + 1, Len(args)))) @@ b0
      r == Ev(m.b, [s EXCEPT !.env = <<b1>>])
  IN [r EXCEPT !.s.env = s.env]
Scoped(es, s) == LET r == Seqn(es, Push(s), Nil) IN [r EXCEPT !.s = Drop(r.s)]
Cond(cs, s) ==
  IF cs = <<>> THEN OK(Nil, s)
  ELSE LET r == Ev(Car(cs[1]), s) IN IF r.o # "v" THEN r ELSE IF Truthy(r.v) THEN Seqn(From(cs[1], 2), r.s, Nil) ELSE Cond(Tail(cs), r.s)
Keys(ks, v, s) == IF ks = <<>> THEN OK(B(0), s) ELSE LET r == Ev(ks[1], s) IN IF r.o # "v" THEN r ELSE IF Same(r.v, v) THEN OK(B(1), r.s) ELSE Keys(Tail(ks), v, r.s)
Case(cs, v, s) ==
  IF cs = <<>> THEN OK(Nil, s)
  ELSE LET k == Car(cs[1])  body == From(cs[1], 2) IN
       IF IsY(k, "otherwise") THEN Seqn(body, s, Nil)
       ELSE LET r == IF IsL(k) /\ ~IsY(Car(k), "quote") THEN Keys(Els(k), v, s) ELSE Keys(<<k>>, v, s)
            IN IF r.o # "v" THEN r ELSE IF Truthy(r.v) THEN Seqn(body, r.s, Nil) ELSE Case(Tail(cs), v, r.s)
Var(s, x) == LET i == Scope(s.env, Len(s.env), x) IN s.env[i][x]
Put(s, x, v) == Bind(s, Scope(s.env, Len(s.env), x), x, v)
(* the counter is an ordinary variable and the limit is looked at before every turn *)
Times(x, lim, body, s) ==
  LET r == Ev(lim, s) IN
  IF r.o # "v" THEN r
  ELSE IF ~(Var(r.s, x)[2] < r.v[2]) THEN OK(Nil, r.s)
  ELSE LET q == Seqn(body, r.s, Nil) IN IF q.o # "v" THEN q
       ELSE Times(x, lim, body, Put(q.s, x, I(Var(q.s, x)[2] + 1)))
Each(x, rest, body, s) ==
  IF ~IsL(rest) THEN OK(Nil, s)
  ELSE LET q == Seqn(body, Def(s, x, Car(rest)), Nil) IN IF q.o # "v" THEN q ELSE Each(x, Cdr(rest), body, q.s)
Lets(bs, s) == IF bs = <<>> THEN OK(Nil, s) ELSE LET r == Ev(Cadr(bs[1]), s) IN IF r.o # "v" THEN r ELSE Lets(Tail(bs), Def(r.s, Car(bs[1])[2], r.v))
Thread(x, fs) == IF fs = <<>> THEN x ELSE Thread(IF IsL(fs[1]) THEN Cons(Car(fs[1]), Cons(x, Cdr(fs[1]))) ELSE LL(<<fs[1], x>>), Tail(fs))
AndF(es, v, s) == IF es = <<>> THEN OK(v, s) ELSE LET r == Ev(es[1], s) IN IF r.o # "v" \/ ~Truthy(r.v) THEN r ELSE AndF(Tail(es), r.v, r.s)
OrF(es, s) == IF es = <<>> THEN OK(B(0), s) ELSE LET r == Ev(es[1], s) IN IF r.o # "v" \/ Truthy(r.v) THEN r ELSE OrF(Tail(es), r.s)
(* the template t at level d *)
Q(t, d, s) ==
  IF ~IsL(t) THEN OK(t, s)
  ELSE IF IsY(Car(t), "unquote") THEN (IF d = 1 THEN Ev(Cadr(t), s) ELSE Q(Cadr(t), d - 1, s))
  ELSE IF IsY(Car(t), "quasiquote") THEN Q(Cadr(t), d + 1, s)
  ELSE LET h == Car(t)
           sp == IsL(h) /\ IsY(Car(h), "unquote-splicing")
           r == IF sp THEN (IF d = 1 THEN Ev(Cadr(h), s) ELSE Q(Cadr(h), d - 1, s)) ELSE Q(h, d, s)
       IN IF r.o # "v" THEN r
          ELSE LET q == Q(Cdr(t), d, r.s) IN IF q.o # "v" THEN q ELSE OK(IF sp THEN AppendL(r.v, q.v) ELSE Cons(r.v, q.v), q.s)
(* assignments to a variable *)
Assign(x, e, s) == LET r == Ev(e, s) IN IF r.o # "v" THEN r ELSE OK(r.v, Put(r.s, x, r.v))
Ev(x, s0) ==
  LET s == Burn(s0) IN
  IF s.fl < 0 THEN R("f", Nil, s)
  ELSE IF x[1] = "y" THEN (IF Scope(s.env, Len(s.env), x[2]) = 0 THEN Err(s) ELSE OK(Var(s, x[2]), s))
  ELSE IF ~IsL(x) THEN OK(x, s)
  ELSE LET h == Car(x)  a == From(x, 2)  n == IF h[1] = "y" THEN h[2] ELSE "" IN
  IF h[1] = "l" THEN   \* only calls of macros which expand to the operator
     LET r == Expand(Mac(s, Car(h)[2]), From(h, 2), s) IN IF r.o # "v" THEN r ELSE Ev(Cons(r.v, Cdr(x)), r.s)
  ELSE IF IsMac(s, n) THEN LET r == Expand(Mac(s, n), a, s) IN IF r.o # "v" THEN r ELSE Ev(r.v, r.s)
  ELSE CASE n = "quote" -> OK(a[1], s)
    [] n = "quasiquote" -> Q(a[1], 1, s)
    [] n = "do" -> Seqn(a, s, Nil)
    [] n = "let*" -> Scoped(a, s)
    [] n = "def" -> LET r == Ev(a[2], s) IN IF r.o # "v" THEN r ELSE OK(r.v, Def(r.s, a[1][2], r.v))
    [] n = "set!" -> Assign(a[1][2], a[2], s)
    [] n = "+=" -> Assign(a[1][2], Call("+", <<a[1], a[2]>>), s)
    [] n = "inc!" -> Assign(a[1][2], Call("+", <<a[1], IF Len(a) > 1 THEN a[2] ELSE I(1)>>), s)
    [] n = "dec!" -> Assign(a[1][2], Call("-", <<a[1], IF Len(a) > 1 THEN a[2] ELSE I(1)>>), s)
    [] n = "cons!" -> Assign(a[2][2], Call("cons", <<a[1], a[2]>>), s)
    [] n = "cdr!" -> Assign(a[1][2], Call("cdr", <<a[1]>>), s)
    [] n = "cddr!" -> Assign(a[1][2], Call("cdr", <<Call("cdr", <<a[1]>>)>>), s)
    [] n \in {"if", "if-not"} ->
         LET r == Ev(a[1], s) IN IF r.o # "v" THEN r
         ELSE IF Truthy(r.v) = (n = "if") THEN Ev(a[2], r.s) ELSE IF Len(a) > 2 THEN Ev(a[3], r.s) ELSE OK(Nil, r.s)
    [] n \in {"when", "when-not"} ->
         LET r == Ev(a[1], s) IN IF r.o # "v" THEN r
         ELSE IF Truthy(r.v) = (n = "when") THEN Seqn(Tail(a), r.s, Nil) ELSE OK(Nil, r.s)
    [] n = "cond" -> Cond(a, s)
    [] n = "case" -> LET r == Ev(a[1], Push(s)) IN IF r.o # "v" THEN r ELSE LET q == Case(Tail(a), r.v, r.s) IN [q EXCEPT !.s = Drop(q.s)]
    [] n = "and" -> AndF(a, Nil, s)
    [] n = "or" -> OrF(a, s)
    [] n = "let" -> LET r == Lets(Els(a[1]), Push(s)) IN IF r.o # "v" THEN r ELSE LET q == Seqn(Tail(a), r.s, Nil) IN [q EXCEPT !.s = Drop(q.s)]
    [] n = "dotimes" ->
         LET b == Els(a[1])  q == Times(b[1][2], b[2], Tail(a), Def(s, b[1][2], I(0))) IN
         IF q.o # "v" THEN q ELSE IF Len(b) > 2 THEN Ev(b[3], q.s) ELSE OK(Nil, q.s)
    [] n = "doseq" ->
         LET b == Els(a[1])  r == Ev(b[2], Push(s)) IN IF r.o # "v" THEN r
         ELSE LET q == Each(b[1][2], r.v, Tail(a), r.s) IN IF q.o # "v" THEN q
         ELSE LET z == IF Len(b) > 2 THEN Ev(b[3], q.s) ELSE OK(Nil, q.s) IN [z EXCEPT !.s = Drop(z.s)]
    [] n = "->" -> Ev(Thread(a[1], Tail(a)), s)
    [] n = "gensym" -> OK(Y("g#" \o ToString(s.g)), [s EXCEPT !.g = @ + 1])
    [] OTHER ->
         LET r == Args(a, s, <<>>) IN IF r.o # "v" THEN r
         ELSE LET v == r.v IN
           CASE n = "list" -> OK(LL(v), r.s)
             [] n = "cons" -> OK(Cons(v[1], v[2]), r.s)
             [] n = "car" -> OK(Car(v[1]), r.s)
             [] n = "cdr" -> OK(Cdr(v[1]), r.s)
             [] n = "tr" -> OK(v[1], Log(r.s, v[1]))
             [] n = "+" -> IF Nums(v) THEN (IF Sum(v) > 1000000 \/ Sum(v) < -1000000 THEN R("f", Nil, r.s) ELSE OK(I(Sum(v)), r.s)) ELSE Err(r.s)
             [] n = "-" -> IF Nums(v) THEN OK(I(Num(v[1]) - Num(v[2])), r.s) ELSE Err(r.s)
             [] OTHER -> R("bad", Y(n), r.s)

(* -------------------------------------------------------------- programs --- *)
(* a program is decoded from a sequence of numbers, one per choice *)
Vars == <<"va", "vb", "vc", "vd">>
Lists == <<"vb", "vc", "vn">>
Env0 == [va |-> I(7), vb |-> LL(<<I(1), I(2)>>), vc |-> LL(<<UQ(Y("va")), Y("unquote-splicing"), Y("va"), LL(<<US(Y("vb"))>>)>>), vd |-> B(0), vn |-> Nil, vs |-> Y("va")]
Atom(p) == CASE p < 4 -> I(p)
  [] p = 4 -> Y("va") [] p = 5 -> Y("vb") [] p = 6 -> Y("vc") [] p = 7 -> Y("vd") [] p = 8 -> Y("vn") [] p = 9 -> Y("vs")
  [] p = 10 -> K("k") [] p = 11 -> B(0) [] p = 12 -> B(1) [] p = 13 -> Nil
  [] p = 14 -> Qu(Y("va")) [] p = 15 -> S("str") [] OTHER -> Call("tr", <<I(p)>>)
IAtom(p) == CASE Mod(p, 4) = 0 -> I(p) [] Mod(p, 4) = 1 -> Y("va") [] OTHER -> Call("tr", <<I(p)>>)
TAtom(p) == CASE p < 3 -> I(p) [] p = 3 -> Y("va") [] p = 4 -> Y("vmall") [] p = 5 -> K("k") [] p = 6 -> B(0) [] p = 7 -> B(1) [] p = 8 -> Nil [] p = 9 -> S("str")
  [] p = 10 -> X("arr") [] p = 11 -> X("tree") [] p = 12 -> Y("list") [] p = 13 -> Y("when") [] p = 14 -> X("arr0") [] p = 15 -> X("float") [] OTHER -> Y("vz")
(* kinds: E any value, I a number, L a proper list, D a datum; T a template *)
Forms == <<
  <<"list", "E", "E">>, <<"list", "E">>, <<"do", "E", "E">>, <<"do", "E", "E", "E">>, <<"if", "E", "E", "E">>, <<"if-not", "E", "E", "E">>,
  <<"when", "E", "E", "E">>, <<"when-not", "E", "E">>, <<"cond", "E", "E", "E", "E", "E">>, <<"casei", "I", "E", "E", "E", "E">>, <<"casek", "D", "E", "E">>,
  <<"let", "E", "E">>, <<"let2", "E", "I", "E">>, <<"dotimes", "E", "E", "E">>, <<"doseq", "L", "E", "E">>, <<"->", "E", "E">>, <<"->2", "E", "I">>,
  <<"and", "E", "E">>, <<"or", "E", "E">>, <<"set!", "I">>, <<"+=", "I">>, <<"inc!">>, <<"dec!", "I">>, <<"cons!", "E">>, <<"cdr!">>, <<"cddr!">>,
  <<"tr", "E">>, <<"quote", "E">>, <<"quasiquote", "T">>, <<"quasiquote", "T">>, <<"quasiquote", "T">>, <<"+", "I", "I", "I">>,
  <<"vmquote", "E", "E">>, <<"vmall", "E", "E">>, <<"vmall">>, <<"vmdata", "E", "E">>, <<"vmtwice", "E">>, <<"vmonce", "E">>, <<"vmswap", "E", "E", "E">>,
  <<"vmnest", "E", "E", "E">>, <<"vmback", "E", "E">>, <<"vmkeep", "E">>, <<"vmtemp", "T", "E">>, <<"vmtimes", "E", "E">>, <<"vmid", "E">>, <<"vmnone">>, <<"vmfalse">>,
  <<"vmfalses">>, <<"vmvar">>, <<"vmlet", "E", "E">>, <<"vmdot", "E", "E">>, <<"vmdot", "E">>, <<"vmwhen", "E", "E", "E">>, <<"vmop", "E", "E">>, <<"vmown", "E", "E", "E">>, <<"vmown", "E", "E">> >>
IForms == << <<"+", "I", "I">>, <<"+", "I", "I", "I", "I">>, <<"if", "E", "I", "I">>, <<"do", "E", "I">>, <<"vmid", "I">>, <<"vmswap", "E", "I", "I">>, <<"-", "I", "I">>, <<"leti", "E", "I">> >>
LForms == << <<"list", "E", "E">>, <<"quasiquote", "P">>, <<"vmall", "E">>, <<"vmdata", "E", "E">>, <<"do", "E", "L">>, <<"vmtwice", "E">>, <<"when", "E", "L">>, <<"list">> >>
Xv(d) == Y("x" \o ToString(d))
Make(f, e, d, p) ==
  CASE f \in {"list", "do", "if", "if-not", "when", "when-not", "and", "or", "tr", "quote", "quasiquote", "+", "-"} \cup (MacroNames \ {"vmtimes", "vmlet"}) -> Call(f, e)
    [] f = "cond" -> Call("cond", <<LL(<<e[1], e[2]>>), LL(<<e[3], e[4], e[5]>>)>>)
    [] f = "casei" -> Call("case", <<e[1], LL(<<LL(<<I(0), I(7)>>), e[2]>>), LL(<<I(Mod(p, 4)), e[3], e[4]>>), LL(<<Y("otherwise"), e[5]>>)>>)
    [] f = "casek" -> Call("case", <<e[1], LL(<<K("k"), e[2]>>), LL(<<Qu(Y("va")), e[3]>>)>>)
    [] f = "let" -> Call("let", <<LL(<<LL(<<Xv(d), e[1]>>)>>), e[2], (IF Mod(p, 2) = 0 THEN Xv(d) ELSE e[2])>>)
    [] f = "leti" -> Call("let", <<LL(<<LL(<<Xv(d), e[1]>>)>>), Xv(d), e[2]>>)
    [] f = "let2" -> Call("let", <<LL(<<LL(<<Xv(d), e[1]>>), LL(<<Y("va"), e[2]>>)>>), e[3], Call("list", <<Y("va"), Xv(d)>>)>>)
    [] f = "dotimes" -> Call("dotimes", <<LL(IF Mod(p, 2) = 0 THEN <<Xv(d), I(Mod(p, 4)), e[3]>> ELSE <<Xv(d), I(Mod(p, 4))>>), e[1], e[2], Call("tr", <<Xv(d)>>)>>)
    [] f = "doseq" -> Call("doseq", <<LL(IF Mod(p, 2) = 0 THEN <<Xv(d), e[1], e[3]>> ELSE <<Xv(d), e[1]>>), Call("tr", <<Xv(d)>>), e[2]>>)
    [] f = "->" -> Call("->", <<e[1], Y("list"), Call("cons", <<e[2]>>), Call("list", <<I(p)>>)>>)
    [] f = "->2" -> Call("->", <<e[1], Call("tr", <<>>), Call("vmall", <<e[2]>>), Y("car"), Y("vmid")>>)
    [] f = "set!" -> Call("set!", <<Y("va"), e[1]>>)
    [] f \in {"+=", "dec!"} -> Call(f, <<Y("va"), e[1]>>)
    [] f = "inc!" -> Call("inc!", IF Mod(p, 2) = 0 THEN <<Y("va")>> ELSE <<Y("va"), I(p)>>)
    [] f = "cons!" -> Call("cons!", <<e[1], Y("vb")>>)
    [] f \in {"cdr!", "cddr!"} -> Call(f, <<Y("vb")>>)
    [] f = "vmtimes" -> Call("vmtimes", <<I(Mod(p, 4))>> \o e)
    [] f = "vmlet" -> Call("vmlet", <<LL(<<Xv(d), e[1]>>), e[2], Xv(d)>>)
    [] f = "vmop" -> LD(<<Call("vmid", <<Y("list")>>)>> \o e, Nil)
    [] f = "vmown" -> Call("vmown", e)
Pick(r) == IF r = <<>> THEN 0 ELSE Head(r)
Rest(r) == IF r = <<>> THEN <<>> ELSE Tail(r)
(* lvl: the quasiquotes minus unquotes around; c: what kind of code is generated, with holes for a macro's parameters or without *)
RECURSIVE G(_, _, _, _, _), GS(_, _, _, _, _, _)
GS(ks, d, lvl, c, r, out) == IF ks = <<>> THEN <<out, r>> ELSE LET g == G(ks[1], d, lvl, c, r) IN GS(Tail(ks), d, lvl, c, g[2], Append(out, g[1]))
OfForm(f0, d, c, r, p) == LET f == IF c = "hole" /\ f0[1] \in {"quasiquote", "vmtemp", "vmown"} THEN <<"list", "E">> ELSE IF c = "own" /\ f0[1] = "vmown" THEN <<"vmall", "E", "E">> ELSE f0
                              g == GS(Tail(f), d - 1, 0, c, r, <<>>) IN <<Make(f[1], g[1], d, p), g[2]>>
Hole(k, p) == CASE k = "I" -> I(p) [] Mod(p, 3) = 0 -> UQ(Y("p")) [] Mod(p, 3) = 1 -> UQ(Y("q")) [] OTHER -> UQ(Call("car", <<Y("r")>>))
G(k, d, lvl, c, r) ==
  LET p == Pick(r)  r1 == Rest(r)  p2 == Pick(r1)  r2 == Rest(r1) IN
  CASE k = "E" /\ c = "hole" /\ Mod(p, 3) = 0 -> <<Hole(k, p2), r2>>
    [] k = "E" /\ ~(c = "hole" /\ Mod(p, 3) = 0) -> IF d = 0 THEN <<Atom(Mod(p, 20)), r1>> ELSE OfForm(Forms[Mod(p, Len(Forms)) + 1], d, c, r2, p2)
    [] k = "I" -> IF d <= 0 THEN <<IAtom(Mod(p, 12)), r1>> ELSE OfForm(IForms[Mod(p, Len(IForms)) + 1], d, c, r2, p2)
    [] k = "L" -> IF d <= 0 THEN <<Y(Lists[Mod(p, 3) + 1]), r1>> ELSE OfForm(LForms[Mod(p, Len(LForms)) + 1], d, c, r2, p2)
    [] k = "D" -> <<CASE Mod(p, 4) = 0 -> K("k") [] Mod(p, 4) = 1 -> Qu(Y("va")) [] Mod(p, 4) = 2 -> Y("vs") [] OTHER -> I(3), r1>>
    (* templates; P: ones which become proper lists *)
    [] k = "P" -> LET g == GS(IF Mod(p, 3) = 0 THEN <<"T">> ELSE IF Mod(p, 3) = 1 THEN <<"U", "T">> ELSE <<"T", "U", "U">>, d - 1, lvl, c, r1, <<>>) IN <<LL(g[1]), g[2]>>
    [] k = "U" -> IF lvl > 0 THEN (LET g == G("P", d, lvl - 1, c, r1) IN <<US(g[1]), g[2]>>)
                  ELSE IF Mod(p, 2) = 0 THEN <<US(Y(Lists[Mod(p, 3) + 1])), r1>> ELSE (LET g == G("L", d, 0, c, r1) IN <<US(g[1]), g[2]>>)
    [] k = "T" ->
       IF d <= 0 THEN (IF lvl = 0 /\ Mod(p, 3) = 0 THEN <<UQ(Atom(Mod(p2, 20))), r2>> ELSE <<TAtom(Mod(p, 17)), r1>>)
       ELSE LET z == Mod(p, 16) IN
         CASE z = 0 -> <<TAtom(Mod(p2, 17)), r2>>
           [] z \in {1, 2, 3} -> IF lvl > 0 THEN (LET g == G("T", d, lvl - 1, c, r1) IN <<UQ(g[1]), g[2]>>) ELSE (LET g == G("E", d - 1, 0, c, r1) IN <<UQ(g[1]), g[2]>>)
           [] z \in {4, 5, 6} -> LET g == GS(<<"T", "T">>, d - 1, lvl, c, r1, <<>>) IN <<LL(g[1]), g[2]>>
           [] z \in {7, 8} -> LET g == GS(<<"T", "U">>, d - 1, lvl, c, r1, <<>>) IN <<LL(g[1]), g[2]>>
           [] z = 9 -> LET g == GS(<<"U", "T">>, d - 1, lvl, c, r1, <<>>) IN <<LL(g[1]), g[2]>>
           [] z = 10 -> LET g == GS(<<"U">>, d - 1, lvl, c, r1, <<>>) IN <<LL(g[1]), g[2]>>
           [] z = 11 -> LET g == GS(<<"T", "U", "T">>, d - 1, lvl, c, r1, <<>>) IN <<LL(g[1]), g[2]>>
           [] z = 12 -> LET g == GS(<<"T", "T">>, d - 1, lvl, c, r1, <<>>) IN <<LD(<<g[1][1]>>, g[1][2]), g[2]>>
           [] z = 13 -> LET g == GS(<<"U", "T">>, d - 1, lvl, c, r1, <<>>) IN <<LD(<<g[1][1]>>, g[1][2]), g[2]>>
           [] z = 14 -> LET g == GS(<<"T">>, d - 1, lvl, c, r1, <<>>) IN <<Qu(g[1][1]), g[2]>>
           [] OTHER -> LET g == GS(<<"T">>, d - 1, lvl + 1, c, r1, <<>>) IN <<QQ(g[1][1]), g[2]>>

Start(m) == [env |-> <<Env0>>, tr |-> <<>>, g |-> 0, fl |-> 3000, mac |-> m]
Run(e, m) == Ev(e, Start(m))
(* the program's own macro *)
Own(r) == LET g == G("E", DEPTH - 1, 0, "hole", Tail(Tail(r))) IN
   IF r[1] = 0 THEN NoMac
   ELSE Vm(<<"p", "q">>, "r", IF Mod(r[1], 3) = 0 THEN QQ(Call("list", <<g[1], US(Y("r"))>>)) ELSE IF Mod(r[1], 3) = 1 THEN QQ(g[1]) ELSE QQ(Call("vmall", <<US(Y("r")), g[1]>>)))
Prog(k, r, own) == G(k, DEPTH, 0, IF own = NoMac THEN "own" ELSE "", r)[1]
Wrap(k, e) == IF k = "T" THEN QQ(e) ELSE e

vars == <<st>>
Init == st = [i |-> 0, e |-> <<>>, m |-> NoMac]
Mix(a, b, i) == Mod(a * 3163 + b * 1777 + i * 7919 + Mod(i * (a + 3) * (b + 5), 1009), 997)
Long(h) == h \o [i \in 1..40 |-> Mix(h[1] * 7 + h[Len(h)], h[Mod(Len(h), 2) + 1], i)]
(* every form around every form, every template around every template *)
NextForms == st.i = 0 /\ \E a \in 0..(Len(Forms) - 1), b \in 0..(Len(Forms) - 1), p \in 0..WIDTH :
   LET r == Long(<<a, p, b, p + a>>) IN st' = [i |-> 1, e |-> Prog("E", r, NoMac), m |-> NoMac]
NextTemplates == st.i = 0 /\ \E a \in 1..15, b \in 0..15, c \in 0..15, p \in 0..WIDTH :
   LET r == IF p = 0 THEN Long(<<a, b, c>>) ELSE Long(<<a, b, p - 1, c>>) IN st' = [i |-> 1, e |-> Wrap("T", Prog("T", r, NoMac)), m |-> NoMac]
Rnd(S0, z) == IF z < 0 THEN 0 ELSE RandomElement(S0)
Draw(z) == TLCEval([i \in 1..(WIDTH) |-> Rnd(0..5039, z)])
SimNext == \E j \in 1..4 : \E a \in {Draw(st.i * 10 + j)}, b \in {Draw(st.i * 10 + j)} :
   LET m == Own(b) IN
   st' = [i |-> st.i + 1, m |-> m, e |-> IF j = 1 THEN Wrap("T", Prog("T", <<Mod(a[1], 15) + 1>> \o Tail(a), NoMac)) ELSE Prog("E", IF j = 2 THEN <<Len(Forms) - 1 - Mod(a[1], 2)>> \o Tail(a) ELSE a, m)]
Sane == st.e # <<>> => Run(st.e, st.m).o # "bad"
Emit == (st.e # <<>>) => LET r == Run(st.e, st.m) IN (r.o \in {"v", "t"}) => PrintT("@" \o ToJson([e |-> st.e, m |-> st.m, o |-> r.o, v |-> r.v, tr |-> r.s.tr]))
MacInit == st = [i |-> 0, e |-> <<>>, m |-> NoMac]
MacNext == FALSE /\ st' = st
MacEmit == (st.i = 0) => PrintT("@" \o ToJson([macros |-> [n \in MacroNames |-> Macros[n]]]))
=============================================================================
