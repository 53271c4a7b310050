------------------------------- MODULE CallEnum -------------------------------
(* Calls: every shape of a callee, number and kind of arguments, and way to    *)
(* make the call.  A state is one program; in simulation programs are random   *)
(* trees of calls.                                                             *)
EXTENDS Lang
CONSTANTS MODE, MAXARGS, DEPTH
VARIABLES st

PN == <<"a1", "a2", "a3", "a4">>
X == V("x0")
Step == Do(<<Set("x0", P("+", <<X, Num(1)>>)), X>>)
(* callees: np parameters, a rest parameter or not, and what the body does *)
Shapes == {<<np, rest, b>> : np \in 0..4, rest \in {"", "r0"}, b \in 1..3}
Callee(sh) ==
  LET ps == SubSeq(PN, 1, sh[1])
      all == [i \in 1..sh[1] |-> V(PN[i])] \o (IF sh[2] = "" THEN <<>> ELSE <<V("r0")>>)
  IN Fn(ps, sh[2],
        CASE sh[3] = 1 -> <<P("list", all \o <<X>>)>>
          [] sh[3] = 2 -> <<P("tr", <<P("list", all)>>)>> \o (IF sh[1] > 0 THEN <<Set("a1", P("list", <<V("a1"), X>>))>> ELSE <<>>)
                          \o <<Def("a2", Num(5)), P("list", all \o <<V("a2")>>)>>
          [] sh[3] = 3 -> <<Let(<<"c0">>, <<Fn(<<>>, "", <<P("list", all)>>)>>, <<Set("x0", P("list", <<X>>)), P("list", <<Call(V("c0"), <<>>), Call(V("c0"), <<Num(1)>>)>>)>>)>>)

(* argument i of pattern p *)
Argument(p, i, n) ==
  CASE p = 1 -> T(100 + i)
    [] p = 2 -> Num(i)
    [] p = 3 -> IF i % 2 = 1 THEN C(Nil) ELSE T(100 + i)
    [] p = 4 -> Step
    [] p = 5 -> IF i = n THEN P("throw", <<C(K("t"))>>) ELSE T(100 + i)
    [] p = 6 -> IF i % 2 = 1 THEN P("list", <<T(i), X>>) ELSE C(Nil)
    [] p = 7 -> IF i = 1 THEN X ELSE IF i = 2 THEN Step ELSE IF i = 3 THEN V("a1") ELSE V("r0")
    [] p = 8 -> IF i = 1 THEN Call(Fn(<<"a1">>, "r0", <<P("list", <<V("a1"), V("r0"), Tr(X)>>)>>), <<Step, Num(1), Step>>) ELSE Tr(Step)
Args(p, n) == [i \in 1..n |-> Argument(p, i, n)]
Constant(n) == N("q", "", L([i \in 1..n |-> IF i % 3 = 2 THEN Nil ELSE I(i)]), <<>>)

(* ways to call *)
LoopTwice(b) == Let(<<"i0">>, <<Num(0)>>, <<While(P("<", <<V("i0"), Num(2)>>), <<Set("i0", P("+", <<V("i0"), Num(1)>>)), b>>)>>)
Ways(f, as) == <<
  Call(f, as),
  Let(<<"g0">>, <<f>>, <<Call(V("g0"), as)>>),
  Do(<<Def("g1", f), Call(V("g1"), as)>>),
  Let(<<"fs">>, <<P("list", <<f, Num(1)>>)>>, <<Call(P("car", <<V("fs")>>), as)>>),
  Call(If(Tr(X), f, Num(3)), as),
  Call(Fn(<<"q0">>, "", <<Call(V("q0"), as)>>), <<f>>),
  Call(Call(Fn(<<>>, "", <<f>>), <<>>), as),
  Call(Do(<<T(50), f>>), as),
  N("apply", "", <<>>, <<f, P("list", as)>>),
  Let(<<"g0", "as">>, <<f, P("list", as)>>, <<N("apply", "", <<>>, <<V("g0"), V("as")>>)>>),
  N("apply", "", <<>>, <<Do(<<T(50), f>>), Constant(Len(as))>>),
  N("meth", "m", <<>>, <<f>> \o as),
  N("methproto", "m", <<>>, <<f>> \o as),
  N("methkw", "m", <<>>, <<f>> \o as),
  N("methapply", "m", <<>>, <<f>> \o as),
  Try(Fn(<<"e0">>, "", <<P("list", <<Num(60), V("e0")>>)>>), <<Call(f, as)>>),
  LoopTwice(Call(f, as)),
  Call(Fn(<<"g2">>, "", <<LoopTwice(Call(V("g2"), as))>>), <<f>>),
  Let(<<"g0">>, <<f>>, <<N("eval", "", <<>>, <<Call(V("g0"), as)>>)>>),
  Call(Fn(<<>>, "", <<Ret(Call(f, as)), T(70)>>), <<>>),
  P("list", <<T(80), Let(<<"g0">>, <<f>>, <<Call(V("g0"), as)>>), T(81)>>),
  (* through a function that passes all its arguments on *)
  Let(<<"g0", "h0">>, <<f, Fn(<<>>, "all", <<N("apply", "", <<>>, <<V("g0"), V("all")>>)>>)>>, <<Call(V("h0"), as)>>),
  (* as an exception handler, called with the exception only *)
  Try(f, <<T(80), P("throw", <<IF as = <<>> THEN C(K("z")) ELSE as[1]>>)>>),
  P("list", <<T(80), Try(f, <<P("list", <<T(81), P("list", <<P("throw", <<C(L(<<K("q"), I(Len(as))>>))>>)>>)>>)>>), T(82)>>)
>>
NW == Len(Ways(Nil, <<>>))

(* built-in functions, with arguments to take them from *)
Nats == <<
  [n |-> "add/int", a |-> <<Num(3), T(4), T(5), T(6), T(7)>>],
  [n |-> "sub/int", a |-> <<T(9), T(4), T(5), T(6), T(7)>>],
  [n |-> "inc/int", a |-> <<T(9), T(4), T(5), T(6), T(7)>>],
  [n |-> "cons", a |-> <<T(1), P("list", <<T(2)>>), T(3), T(4), T(5)>>],
  [n |-> "cons", a |-> <<C(Nil), C(Nil), T(3), T(4), T(5)>>],
  [n |-> "car", a |-> <<P("list", <<T(1), T(2)>>), T(3), T(4), T(5), T(6)>>],
  [n |-> "cdr", a |-> <<P("list", <<T(1), T(2)>>), T(3), T(4), T(5), T(6)>>],
  [n |-> "list", a |-> <<T(1), C(Nil), T(3), Step, P("list", <<X>>)>>],
  [n |-> "array/new", a |-> <<T(1), T(2), Step, P("list", <<X>>), T(5)>>],
  [n |-> "tree/new", a |-> <<C(K("a")), T(1), Tr(C(K("b"))), Step, C(K("a"))>>],
  [n |-> "tree/new", a |-> <<C(K("a")), T(1), C(Nil), T(2), T(3)>>],
  [n |-> "tree/new", a |-> <<T(1), T(2), T(3), T(4), T(5)>>],
  [n |-> "ref", a |-> <<C(<<"t", <<<<"a", I(1)>>, <<"b", I(2)>>>>>>), Tr(C(K("b"))), T(3), T(4), T(5)>>],
  [n |-> "not", a |-> <<C(Nil), T(1), T(2), T(3), T(4)>>],
  [n |-> "nil?", a |-> <<Tr(C(Nil)), T(1), T(2), T(3), T(4)>>],
  [n |-> "throw", a |-> <<T(1), T(2), T(3), T(4), T(5)>>],
  (* not functions *)
  [n |-> "x0", a |-> <<T(1), T(2), T(3), T(4), T(5)>>] >>
(* built-ins of several arguments, called right after unrelated values were where their arguments go *)
ST(t) == C(<<"s", t>>)
Buf(t) == P("buffer/copy", <<P("buffer/allocate", <<Num(Len(t))>>), ST(t), Num(0)>>)
ABC == <<97, 98, 99, 97, 98>>
Gaps == <<
  [n |-> ":cut", a |-> <<ST(ABC), Num(1), Num(3), T(1)>>],
  [n |-> ":cut", a |-> <<Buf(ABC), T(2), C(Nil), T(1)>>],
  [n |-> ":index-of", a |-> <<ST(ABC), ST(<<97, 98>>), Num(1), T(1)>>],
  [n |-> ":last-index-of", a |-> <<ST(ABC), ST(<<97>>), Num(2), T(1)>>],
  [n |-> "buffer->string", a |-> <<Buf(ABC), Num(4), Num(1), T(1)>>],
  [n |-> "buffer->string", a |-> <<Buf(ABC), C(Nil), T(2), T(1)>>],
  [n |-> "buffer/copy", a |-> <<Buf(ABC), ST(<<120, 121>>), Num(1), Num(1), T(1)>>],
  [n |-> "buffer/copy", a |-> <<Buf(ABC), ST(<<120, 121, 122>>), T(3), C(Nil), T(1)>>],
  [n |-> ":has?", a |-> <<P("array/new", <<Num(5), Num(6)>>), Num(1), T(1)>>],
  [n |-> ":has?", a |-> <<C(<<"t", <<<<"a", I(1)>>>>>>), C(K("a")), T(1)>>],
  [n |-> "resolves?", a |-> <<C(<<"y", "a1">>), C(Nil), T(1)>>],
  [n |-> "resolves?", a |-> <<C(<<"y", "zz9">>), Fn(<<"q">>, "", <<V("a1")>>), T(1)>>],
  [n |-> "resolves?", a |-> <<C(<<"y", "x0">>), Num(4), T(1)>>],
  [n |-> "cons", a |-> <<T(1), P("list", <<T(2)>>), T(3)>>],
  [n |-> "add/int", a |-> <<T(1), Num(4), T(3)>>] >>
Other(k) == CASE k = 0 -> Num(1) [] k = 1 -> ST(<<98>>) [] k = 2 -> Buf(<<49, 50, 51>>) [] k = 3 -> C(K("a"))
Before(d, h) == IF d = 0 THEN h
                ELSE IF d <= 4 THEN Do(<<P("list", [i \in 1..12 |-> Other(d - 1)]), h>>)
                ELSE Do(<<P("list", [i \in 1..12 |-> Other(<<2, 1, 0, 0>>[1 + ((i + d) % 4)])]), h>>)
(* operators written out with other numbers of arguments than they have are forms of their own *)
Variadic == {"add/int", "sub/int", "inc/int", "ref"}

Hole(s) ==
  CASE s.m = "fn" -> Ways(Callee(s.f), Args(s.p, s.n))[s.w]
    [] s.m = "nat" -> LET f == Nats[s.f] IN Ways(IF f.n = "x0" THEN X ELSE N("nat", f.n, <<>>, <<>>), SubSeq(f.a, 1, s.n))[s.w]
    [] s.m = "gap" -> LET f == Gaps[s.f] IN Before(s.p, Ways(N("nat", f.n, <<>>, <<>>), SubSeq(f.a, 1, s.n))[s.w])
    [] s.m = "sim" -> s.h
Whole(h) == Let(<<"a1", "a2", "a3", "a4", "r0", "x0">>, <<Num(91), Num(92), Num(93), Num(94), Num(95), Num(0)>>,
                <<P("list", <<h, V("a1"), V("a2"), V("a3"), V("a4"), V("r0"), X>>)>>)

Init == IF MODE = "fn" THEN st \in {[m |-> "fn", f |-> f, p |-> p, n |-> -1, w |-> 0] : f \in Shapes, p \in 1..8}
        ELSE IF MODE = "gap" THEN st \in {[m |-> "gap", f |-> f, p |-> d, n |-> -1, w |-> 0] : f \in 1..Len(Gaps), d \in 0..8}
        ELSE st \in {[m |-> "nat", f |-> f, p |-> 0, n |-> -1, w |-> 0] : f \in 1..Len(Nats)}
Next == /\ st.n = -1
        /\ \E n \in 0..MAXARGS, w \in 1..NW : st' = [st EXCEPT !.n = n, !.w = w]
(* for surplus arguments of the operators, skip the ways that write the call out *)
Direct == {1, 2, 3, 16, 17, 19, 20, 21}
Handling == {23, 24}
Wanted(s) == /\ s.m = "sim" \/ s.n >= 0
             /\ s.m = "nat" => ~(Nats[s.f].n \in Variadic /\ s.w \in Direct /\ s.n # (IF Nats[s.f].n = "inc/int" THEN 1 ELSE 2))
             /\ s.m = "gap" => /\ s.n <= Len(Gaps[s.f].a) /\ ~(s.w \in 11..15)
                               /\ ~(Gaps[s.f].n \in Variadic /\ s.w \in Direct /\ s.n # 2)
             /\ (s.m \notin {"sim", "gap"} /\ s.w = 11) => s.p \in {0, 2}

(* random trees of calls; every random choice is bound by a quantifier over a set of one element, so that it is made once *)
RECURSIVE Rnd(_), RndSeq(_, _)
RndSeq(n, d) == IF n = 0 THEN <<>> ELSE <<Rnd(d)>> \o RndSeq(n - 1, d)
Pick1(S, F(_)) == F(CHOOSE x \in {RandomElement(S)} : TRUE)
RndLeaf(k) == <<T(k), X, Step, C(Nil), V("a1"), V("r0"), Tr(Step), P("list", <<X, V("a2")>>)>>[k]
RndCall(d, n, np, rest, b, w, as, body) ==
  LET all == [i \in 1..np |-> V(PN[i])] \o (IF rest = 1 THEN <<>> ELSE <<V("r0")>>)
      f == Fn(SubSeq(PN, 1, np), IF rest = 1 THEN "" ELSE "r0", IF b = 1 THEN <<P("list", all \o <<body>>)>> ELSE <<body, P("list", all \o <<X>>)>>)
  IN Ways(f, as)[w]
Rnd(d) == 
  IF d = 0 THEN RndLeaf(RandomElement(1..8))
  ELSE IF RandomElement(1..6) = 1 THEN Do(RndSeq(2, d - 1))
  ELSE Pick1(0..3, LAMBDA n : Pick1(0..3, LAMBDA np : Pick1(1..2, LAMBDA rest : Pick1((1..NW) \ {11, 17, 18}, LAMBDA w :
         Pick1({1}, LAMBDA z : LET q == RndSeq(n + 1, d - 1) IN RndCall(d, n, np, rest, RandomElement(1..3), w, Tail(q), q[1]))))))
SimInit == st = [m |-> "sim", h |-> Num(1)]
SimNext == st' = [st EXCEPT !.h = Rnd(RandomElement(2..DEPTH))]
Emit == Wanted(st) => LET p == Whole(Hole(st))  r == Run(p) IN r.o = "f" \/ PrintT("@" \o ToJson([p |-> p, r |-> r]))
===============================================================================
