------------------------------- MODULE LangCtx --------------------------------
(* Programs as nestings of one-hole contexts around a leaf: every way to put  *)
(* one form of the language inside another.  d is the nesting level; each     *)
(* level uses names of its own.                                               *)
EXTENDS Lang

Nm(x, d) == x \o ToString(d)
X == V("x0")
Y == V("y0")
F == V("f0")

Plain(d, h) == LET i == Nm("i", d)  p == Nm("p", d)  g == Nm("g", d) IN <<
  Do(<<T(1), h, T(2)>>),
  Do(<<T(1), h>>),
  If(h, T(1), T(2)),
  If(C(B(TRUE)), h, T(2)),
  If(C(Nil), T(1), h),
  N("when", "", <<>>, <<h, T(1), T(2)>>),
  N("whennot", "", <<>>, <<C(B(FALSE)), T(1), h>>),
  N("and", "", <<>>, <<T(1), h, T(2)>>),
  N("and", "", <<>>, <<T(1), h>>),
  N("or", "", <<>>, <<C(Nil), h, T(2)>>),
  N("or", "", <<>>, <<C(B(FALSE)), h>>),
  N("cond", "", <<>>, <<h, T(1), C(B(TRUE)), T(2)>>),
  N("cond", "", <<>>, <<C(Nil), T(1), P("not", <<C(Nil)>>), h, C(B(TRUE)), T(2)>>),
  N("case", "", <<<<I(1)>>, <<I(2), I(11)>>, <<K("k")>>, <<>>>>, <<h, T(1), T(2), T(3), T(4)>>),
  N("case", "", <<<<I(5)>>, <<I(7), I(6)>>, <<>>>>, <<Num(6), T(1), h, T(2)>>),
  Let(<<p>>, <<h>>, <<Tr(V(p)), Set(p, P("+", <<Num(1), Num(2)>>)), V(p)>>),
  Let(<<"x0">>, <<h>>, <<Set("x0", P("list", <<X, X>>)), X>>),
  Let(<<"x0", "y0">>, <<P("list", <<X>>), h>>, <<P("list", <<X, Y>>)>>),
  Let(<<"x0">>, <<Num(50)>>, <<h, X>>),
  Let(<<>>, <<>>, <<h>>),
  Let(<<p>>, <<Num(3)>>, <<h>>),
  Do(<<Set("x0", h), X>>),
  Do(<<Def("x0", h), X>>),
  Do(<<Def("w0", h), V("w0")>>),
  P("list", <<T(1), h, T(2)>>),
  P("list", <<X, h, X>>),
  P("+", <<T(1), h>>),
  P("-", <<h, T(1)>>),
  P("=", <<h, X>>),
  P("<", <<X, h>>),
  P("not", <<h>>),
  P("nil?", <<h>>),
  P("cadr", <<P("list", <<h, T(1)>>)>>),
  P("cons", <<h, P("list", <<X>>)>>),
  P("car", <<h>>),
  Call(Fn(<<p>>, "", <<Tr(V(p)), h>>), <<T(7)>>),
  Call(Fn(<<p, "x0">>, "", <<h, P("list", <<V(p), X>>)>>), <<T(7), T(8)>>),
  Call(Fn(<<p>>, g, <<P("list", <<V(p), V(g)>>)>>), <<T(1), h, T(3)>>),
  Call(Fn(<<p, g>>, "", <<P("list", <<V(p), V(g)>>)>>), <<h>>),
  Call(F, <<h>>),
  Call(If(C(B(TRUE)), Do(<<h, F>>), F), <<T(1)>>),
  Let(<<g>>, <<Fn(<<>>, "", <<h>>)>>, <<Call(V(g), <<>>), Tr(Call(V(g), <<>>))>>),
  Do(<<Def(g, Fn(<<p>>, "", <<h, V(p)>>)), P("list", <<Call(V(g), <<T(1)>>), X>>)>>),
  N("apply", "", <<>>, <<F, P("list", <<h, T(2)>>)>>),
  N("apply", "", <<>>, <<Fn(<<p>>, g, <<h, V(g)>>), P("list", <<T(1), T(2)>>)>>),
  Let(<<i>>, <<Num(0)>>, <<While(P("<", <<V(i), Num(2)>>), <<Set(i, P("+", <<V(i), Num(1)>>)), h>>)>>),
  Let(<<i>>, <<Num(0)>>, <<While(Do(<<h, Set(i, P("+", <<V(i), Num(1)>>)), P("<", <<V(i), Num(3)>>)>>), <<Tr(V(i))>>)>>),
  N("dotimes", i, <<>>, <<Num(2), h>>),
  N("doseq", i, <<>>, <<P("list", <<Num(4), Num(5)>>), h, Tr(V(i))>>),
  N("doseq", i, <<>>, <<P("list", <<h, Num(5)>>), Tr(V(i))>>),
  Ret(h),
  Do(<<Ret(h), T(1)>>),
  P("list", <<T(1), If(X, Ret(h), Num(1)), T(2)>>),
  Let(<<g>>, <<C(Nil)>>, <<
     N("dotimes", i, <<>>, <<Num(2), Let(<<p>>, <<V(i)>>, <<Set(g, P("cons", <<Fn(<<>>, "", <<Set(p, P("+", <<V(p), Num(10)>>)), h>>), V(g)>>))>>)>>),
     P("list", <<Call(P("car", <<V(g)>>), <<>>), Call(P("cadr", <<V(g)>>), <<>>), Call(P("car", <<V(g)>>), <<>>)>>)>>),
  Let(<<p>>, <<Num(1)>>, <<Let(<<g>>, <<Fn(<<>>, "", <<Set(p, P("+", <<V(p), Num(1)>>)), V(p)>>)>>, <<Call(V(g), <<>>), h, P("list", <<Call(V(g), <<>>), V(p)>>)>>)>>),
  Do(<<Def(g, Fn(<<p>>, "", <<If(P("<", <<Num(0), V(p)>>), Do(<<Call(V(g), <<P("-", <<V(p), Num(1)>>)>>), h>>), T(0))>>)), Call(V(g), <<Num(2)>>)>>),
  N("eval", "", <<>>, <<h>>),
  N("eval", "", <<>>, <<Do(<<h, X>>)>>)
>>

Throwing(d, h) == LET i == Nm("i", d)  p == Nm("p", d)  g == Nm("g", d) IN <<
  Try(Fn(<<p>>, "", <<Tr(P("car", <<V(p)>>))>>), <<T(1), h, T(2)>>),
  Try(Fn(<<p>>, "", <<P("list", <<C(K("caught")), V(p)>>)>>), <<h>>),
  Try(Fn(<<p>>, "", <<Tr(P("car", <<V(p)>>)), h>>), <<T(1), P("throw", <<C(K("a"))>>), T(2)>>),
  Try(Fn(<<p>>, "", <<P("throw", <<P("list", <<C(K("again")), P("car", <<V(p)>>)>>)>>)>>), <<h>>),
  Try(Fn(<<p>>, "", <<P("throw", <<V(p)>>)>>), <<h>>),
  Try(Fn(<<p>>, "", <<Ret(P("cadr", <<V(p)>>)), T(5)>>), <<h, T(3)>>),
  Try(Do(<<T(1), h, F>>), <<T(2), P("throw", <<C(K("b"))>>)>>),
  Try(Num(5), <<h>>),
  Try(N("nat", "list", <<>>, <<>>), <<h>>),
  Try(N("nat", "car", <<>>, <<>>), <<h>>),
  P("list", <<T(1), Try(Fn(<<p>>, "", <<P("list", <<T(4), T(5)>>)>>), <<P("list", <<T(2), h, T(3)>>)>>), T(6), X>>),
  P("throw", <<h>>),
  P("throw", <<P("list", <<C(K("t")), h, T(1)>>)>>),
  Let(<<p>>, <<Num(1)>>, <<Try(Fn(<<g>>, "", <<V(p)>>), <<Set(p, P("+", <<V(p), Num(1)>>)), Let(<<p>>, <<Num(30)>>, <<h, Set(p, Num(31))>>), Set(p, P("+", <<V(p), Num(1)>>)), V(p)>>)>>),
  N("dotimes", i, <<>>, <<Num(2), Try(Fn(<<p>>, "", <<Tr(V(i))>>), <<If(P("=", <<V(i), Num(1)>>), h, P("throw", <<V(i)>>)), T(1)>>)>>),
  Let(<<i>>, <<Num(0)>>, <<Try(Fn(<<p>>, "", <<Tr(V(i))>>), <<While(P("<", <<V(i), Num(3)>>), <<Set(i, P("+", <<V(i), Num(1)>>)), Let(<<p>>, <<V(i)>>, <<P("list", <<T(1), h>>)>>)>>)>>)>>),
  Call(Fn(<<p>>, "", <<Try(Fn(<<g>>, "", <<Ret(P("list", <<V(p), P("car", <<V(g)>>)>>))>>), <<h, P("throw", <<C(K("c"))>>)>>)>>), <<T(1)>>),
  Call(Fn(<<p>>, "", <<Try(Fn(<<g>>, "", <<T(9)>>), <<Ret(h)>>), T(2)>>), <<T(1)>>),
  P("+", <<Num(1), Try(Fn(<<p>>, "", <<Num(2)>>), <<P("+", <<T(1), Call(Fn(<<>>, "", <<Let(<<p>>, <<Num(3)>>, <<h>>)>>), <<>>)>>)>>)>>),
  Try(Fn(<<p>>, "", <<P("list", <<C(K("outer")), P("car", <<V(p)>>)>>)>>),
      <<Try(Fn(<<p>>, "", <<T(1), P("throw", <<C(K("inner"))>>)>>), <<h, T(2)>>), T(3)>>),
  Do(<<Def(g, Fn(<<p>>, "", <<Try(F, <<h, P("throw", <<V(p)>>)>>)>>)), P("list", <<Call(V(g), <<T(1)>>), Call(V(g), <<T(2)>>)>>)>>),
  Try(Fn(<<p>>, g, <<P("list", <<P("car", <<V(p)>>), V(g)>>)>>), <<Def("w0", h), P("throw", <<V("w0")>>)>>),
  Try(Fn(<<>>, "", <<T(1)>>), <<Set("x0", h), P("throw", <<X>>)>>)
>>

(* which of the names are bound here *)
Scopes(xs) == P("list", [i \in 1..(2 * Len(xs)) |-> N(IF i % 2 = 1 THEN "res" ELSE "has", xs[(i + 1) \div 2], <<>>, <<>>)])
PlainLeaf == <<
  Num(11), C(Nil), C(B(FALSE)), C(K("k")), X,
  Tr(X), Set("x0", P("+", <<X, Num(1)>>)), Call(F, <<X>>), Def("x0", Num(99)), Def("w0", Num(5)),
  Ret(X), V("nope"), Set("nope", Num(1)), P("+", <<Num(1), C(K("q"))>>), Call(Y, <<Num(1)>>), P("list", <<X, Y>>),
  Scopes(<<"w0", "x0", "nope">>), Scopes(<<"p1", "g1", "i1", "p2", "g2", "i2">>), N("cref", "x0", <<>>, <<>>) >>
ThrowLeaf == <<
  P("throw", <<C(K("t"))>>), P("throw", <<P("list", <<C(K("u")), X>>)>>), P("throw", <<C(Nil)>>), Num(11), Ret(X), V("nope"),
  Do(<<Set("x0", Num(77)), P("throw", <<X>>)>>), P("+", <<Tr(X), C(K("q"))>>), Call(Fn(<<>>, "", <<T(8), P("throw", <<C(K("v"))>>), T(9)>>), <<>>),
  N("apply", "", <<>>, <<Y, C(Nil)>>), Call(N("nat", "throw", <<>>, <<>>), <<C(K("w"))>>) >>

(* the surrounding program: two variables, a counting function, and a look at them at the end *)
Whole(h) ==
  Let(<<"x0", "y0", "n0", "f0">>,
      <<Num(1), Num(10), Num(0), Fn(<<"q0">>, "", <<Set("n0", P("+", <<V("n0"), Num(1)>>)), Tr(V("q0")), P("list", <<V("q0"), V("n0")>>)>>)>>,
      <<P("list", <<h, X, Y, V("n0")>>)>>)

NP == Len(Plain(1, Nil))
NT == Len(Throwing(1, Nil))
===============================================================================
