--------------------------------- MODULE Size ---------------------------------
(* Code keeps its meaning however large it grows.  A construct takes a hole h  *)
(* and an index sequence ix; it has one part per index, and what it means does *)
(* not depend on how many there are (Law).  Run decides that for the counts of *)
(* NS; for the replay the same construct is built with the index sequence      *)
(* <<"QQ">>, where each repeated part stands for any number of parts.          *)
EXTENDS LangCtx
CONSTANTS NS, RND
VARIABLES st

Mark == <<"QQ">>
Ix(n) == [i \in 1..n |-> ToString(i)]
IsT(ix) == ix = Mark
Size(ix) == IF IsT(ix) THEN C(<<"i", "NN">>) ELSE Num(Len(ix))
Reps(ix, Fm(_)) == IF IsT(ix) THEN <<N("rep", "", <<>>, <<Fm("QQ")>>)>> ELSE [i \in DOMAIN ix |-> Fm(ix[i])]
Nests(ix, Fm(_, _), h) ==
  IF IsT(ix) THEN N("nest", "", <<>>, <<Fm("QQ", V("HH")), h>>)
  ELSE LET G[i \in 1..(Len(ix) + 1)] == IF i > Len(ix) THEN h ELSE Fm(ix[i], G[i + 1]) IN G[1]
Reps2(ix, Fm(_), Gm(_)) == IF IsT(ix) THEN <<N("rep", "", <<>>, <<Fm("QQ"), Gm("QQ")>>)>> ELSE FlattenSeq([i \in DOMAIN ix |-> <<Fm(ix[i]), Gm(ix[i])>>])
Z(i) == "z" \o i
ZK(i) == C(K("k" \o i))
(* notes 99 when variable z<i> has not the value k<i> *)
ChkZ(i) == If(P("=", <<V(Z(i)), ZK(i)>>), C(Nil), T(99))
DefZ(i) == Def(Z(i), ZK(i))
Names(ix) == IF IsT(ix) THEN <<"z*">> ELSE [i \in DOMAIN ix |-> Z(ix[i])]
TT == C(B(TRUE))
FF == C(B(FALSE))
Upto(v, k) == P("<", <<V(v), k>>)
IncV(v) == Set(v, P("+", <<V(v), Num(1)>>))
Count(v, ix) == If(P("=", <<V(v), Size(ix)>>), C(Nil), T(98))
Rethrow == Fn(<<"e">>, "", <<P("throw", <<V("e")>>)>>)

(* statements without effect on anything else, to fill space with *)
Pads(ix) == <<
  Reps(ix, LAMBDA i : DefZ(i)),
  Reps(ix, LAMBDA i : P("list", <<ZK(i), V("x0")>>)),
  Reps(ix, LAMBDA i : Let(<<Z(i)>>, <<ZK(i)>>, <<Set(Z(i), Num(3))>>)),
  Reps(ix, LAMBDA i : If(P("=", <<V("x0"), ZK(i)>>), T(97), C(Nil))),
  Reps(ix, LAMBDA i : Def(Z(i), Fn(<<"q">>, "", <<P("list", <<V("q"), ZK(i)>>)>>))),
  (* in steps of any number of bytes, for the exact limits of a jump *)
  Reps(ix, LAMBDA i : P("list", [j \in 1..100 |-> X])) \o Reps(ix, LAMBDA i : P("nil?", <<X>>)) \o Reps(ix, LAMBDA i : P("list", <<X>>))
>>
(* places for the filling: jumps over it forwards and backwards, scopes and handlers around it *)
Long(d, h) == <<
  Do(d \o <<h>>),
  Let(<<"r">>, <<h>>, d \o <<V("r")>>),
  If(TT, Do(d \o <<h>>), T(1)),
  If(FF, Do(d \o <<T(1)>>), h),
  If(FF, T(1), Do(d \o <<h>>)),
  If(TT, h, Do(d \o <<T(1)>>)),
  If(Do(d \o <<Tr(FF)>>), T(1), h),
  N("when", "", <<>>, <<TT>> \o d \o <<h>>),
  N("whennot", "", <<>>, <<h>> \o d \o <<T(2)>>),
  N("and", "", <<>>, <<T(1), Do(d \o <<TT>>), h>>),
  N("and", "", <<>>, <<h, Do(d \o <<T(2)>>)>>),
  N("or", "", <<>>, <<h, Do(d \o <<T(2)>>)>>),
  N("cond", "", <<>>, <<FF, Do(d \o <<T(1)>>), P("not", <<FF>>), h, TT, Do(d \o <<T(2)>>)>>),
  N("case", "", <<<<I(1)>>, <<I(2), I(11)>>, <<>>>>, <<Num(11), Do(d \o <<T(1)>>), h, Do(d \o <<T(2)>>)>>),
  Let(<<"i">>, <<Num(0)>>, <<While(Upto("i", Num(2)), <<IncV("i")>> \o d \o <<h>>)>>),
  Let(<<"i">>, <<Num(0)>>, <<While(Do(d \o <<Upto("i", Num(2))>>), <<IncV("i"), h>>)>>),
  N("dotimes", "i", <<>>, <<Num(2)>> \o d \o <<h>>),
  N("doseq", "i", <<>>, <<P("list", <<Num(4), Num(5)>>)>> \o d \o <<h>>),
  Try(Fn(<<"e">>, "", <<P("list", <<C(K("caught")), P("car", <<V("e")>>)>>)>>), d \o <<h>>),
  Try(Fn(<<"e">>, "", <<P("list", <<C(K("caught")), P("car", <<V("e")>>)>>)>>), <<h>> \o d \o <<T(3)>>),
  Try(Fn(<<"e">>, "", d \o <<P("list", <<C(K("caught")), P("car", <<V("e")>>)>>), h>>), <<T(1), P("throw", <<C(K("a"))>>)>>),
  Call(Fn(<<"p">>, "", d \o <<Tr(V("p")), h>>), <<T(7)>>),
  Call(Fn(<<"p">>, "", <<If(V("p"), Do(<<Ret(h)>> \o d), Num(1))>>), <<T(7)>>),
  P("list", <<T(1), Do(d \o <<h>>), Let(<<>>, <<>>, d \o <<T(2)>>), V("x0")>>),
  N("eval", "", <<>>, <<Do(d \o <<h>>)>>)
>>
(* many variables, constants, arguments and operands, every one looked at *)
Wide(ix, h) == <<
  Let(<<"r">>, <<Do(Reps(ix, LAMBDA i : DefZ(i)) \o <<h>>)>>, Reps(ix, LAMBDA i : ChkZ(i)) \o <<V("r")>>),
  Do(Reps(ix, LAMBDA i : DefZ(i)) \o Reps(ix, LAMBDA i : ChkZ(i)) \o <<h>>),
  Let(<<"z">>, <<Num(0)>>, Reps(ix, LAMBDA i : Do(<<Set("z", ZK(i)), If(P("=", <<V("z"), ZK(i)>>), C(Nil), T(99))>>)) \o <<h>>),
  Do(Reps(ix, LAMBDA i : DefZ(i)) \o Reps(ix, LAMBDA i : Set(Z(i), P("list", <<ZK(i), V(Z(i))>>))) \o
     Reps(ix, LAMBDA i : If(P("=", <<P("car", <<V(Z(i))>>), P("cadr", <<V(Z(i))>>)>>), C(Nil), T(99))) \o <<h>>),
  Let(Names(ix), Reps(ix, LAMBDA i : ZK(i)), Reps(ix, LAMBDA i : ChkZ(i)) \o <<h>>),
  Do(Reps(ix, LAMBDA i : Def(Z(i), Fn(<<>>, "", <<ZK(i)>>))) \o Reps(ix, LAMBDA i : If(P("=", <<Call(V(Z(i)), <<>>), ZK(i)>>), C(Nil), T(99))) \o <<h>>),
  Let(Names(ix), Reps(ix, LAMBDA i : ZK(i)), <<Call(Fn(<<>>, "", Reps(ix, LAMBDA i : ChkZ(i)) \o <<h>>), <<>>)>>),
  N("cond", "", <<>>, <<FF, T(1)>> \o Reps2(ix, LAMBDA i : P("=", <<V("x0"), ZK(i)>>), LAMBDA i : Tr(ZK(i))) \o <<TT, h>>),
  N("or", "", <<>>, Reps(ix, LAMBDA i : P("=", <<V("x0"), ZK(i)>>)) \o <<h>>),
  N("and", "", <<>>, Reps(ix, LAMBDA i : P("not", <<P("=", <<V("x0"), ZK(i)>>)>>)) \o <<h>>),
  Let(<<"c">>, <<Num(0)>>, Reps(ix, LAMBDA i : IncV("c")) \o <<Count("c", ix), h>>),
  Do(Reps(ix, LAMBDA i : Try(Fn(<<"e">>, "", <<If(P("=", <<P("car", <<V("e")>>), ZK(i)>>), C(Nil), T(99))>>), <<P("throw", <<ZK(i)>>)>>)) \o <<h>>)
>>
(* at most 255 parts *)
Args(ix, h) == <<
  Call(Fn(Names(ix), "", Reps(ix, LAMBDA i : ChkZ(i)) \o <<h>>), Reps(ix, LAMBDA i : ZK(i))),
  Let(<<"c">>, <<Num(0)>>, <<Call(Fn(<<>>, "z", <<N("doseq", "q", <<>>, <<V("z"), IncV("c")>>), Count("c", ix), h>>), Reps(ix, LAMBDA i : ZK(i)))>>),
  Let(<<"c">>, <<Num(0)>>, <<N("doseq", "q", <<>>, <<P("list", Reps(ix, LAMBDA i : ZK(i))), IncV("c")>>), Count("c", ix), h>>),
  N("apply", "", <<>>, <<Fn(Names(ix), "", Reps(ix, LAMBDA i : ChkZ(i)) \o <<h>>), P("list", Reps(ix, LAMBDA i : ZK(i)))>>),
  Call(Fn(<<"a">>, "z", <<Tr(V("a")), h>>), <<T(5)>> \o Reps(ix, LAMBDA i : Do(<<ZK(i)>>))),
  Let(<<"g">>, <<Fn(Names(ix), "", Reps(ix, LAMBDA i : ChkZ(i)) \o <<C(K("got"))>>)>>, <<P("list", <<h, Call(V("g"), Reps(ix, LAMBDA i : ZK(i))), X>>)>>)
>>
(* forms inside forms *)
Deep(ix, h) == <<
  Nests(ix, LAMBDA i, g : Do(<<P("list", <<V("x0")>>), g>>), h),
  Nests(ix, LAMBDA i, g : Let(<<Z(i)>>, <<ZK(i)>>, <<g>>), h),
  Let(<<"r">>, <<Num(0)>>, <<Nests(ix, LAMBDA i, g : Let(<<Z(i)>>, <<ZK(i)>>, <<g, ChkZ(i), V("r")>>), Set("r", h))>>),
  Nests(ix, LAMBDA i, g : If(TT, g, T(1)), h),
  Nests(ix, LAMBDA i, g : If(FF, T(1), g), h),
  Nests(ix, LAMBDA i, g : Call(Fn(<<Z(i)>>, "", <<g>>), <<ZK(i)>>), h),
  Nests(ix, LAMBDA i, g : N("apply", "", <<>>, <<Fn(<<>>, Z(i), <<g>>), P("list", <<ZK(i)>>)>>), h),
  Nests(ix, LAMBDA i, g : Try(Rethrow, <<g>>), h),
  Nests(ix, LAMBDA i, g : P("car", <<P("list", <<g, ZK(i)>>)>>), h),
  Nests(ix, LAMBDA i, g : P("cadr", <<P("list", <<ZK(i), g>>)>>), h),
  Nests(ix, LAMBDA i, g : N("and", "", <<>>, <<TT, g>>), h),
  Nests(ix, LAMBDA i, g : N("when", "", <<>>, <<TT, g>>), h),
  Nests(ix, LAMBDA i, g : N("cond", "", <<>>, <<FF, T(1), TT, g>>), h),
  Nests(ix, LAMBDA i, g : Try(Fn(<<Z(i)>>, "", <<g>>), <<P("throw", <<ZK(i)>>)>>), h),
  Nests(ix, LAMBDA i, g : Let(<<Z(i)>>, <<C(Nil)>>, <<Set(Z(i), g), V(Z(i))>>), h)
>>
(* calls inside calls, from inside scopes, loops, handlers and argument lists *)
F200 == Fn([j \in 1..200 |-> "y" \o ToString(j)], "", <<If(P("=", <<P("+", <<V("y1"), V("y100")>>), P("-", <<V("y199"), Num(98)>>)>>), V("y200"), T(99))>>)
Rec(ix, body(_), h) == Do(<<Def("f200", F200), Def("rec", Fn(<<"m">>, "", <<If(P("<", <<V("m"), Num(1)>>), h, body(Call(V("rec"), <<P("-", <<V("m"), Num(1)>>)>>)))>>)), Call(V("rec"), <<Size(ix)>>)>>)
RECURSIVE LetChain(_, _)
LetChain(n, r) == IF n = 0 THEN r ELSE Let(<<"y" \o ToString(n)>>, <<Num(n)>>, IF n % 10 = 0 THEN <<Def("r", LetChain(n - 1, r)), If(P("=", <<V("y" \o ToString(n)), Num(n)>>), V("r"), T(99))>> ELSE <<LetChain(n - 1, r)>>)
Calls(ix, h) == <<
  Rec(ix, LAMBDA r : r, h),
  Rec(ix, LAMBDA r : P("car", <<P("list", <<r, V("m")>>)>>), h),
  Rec(ix, LAMBDA r : P("cadr", <<P("list", <<V("m"), r>>)>>), h),
  Rec(ix, LAMBDA r : Let(<<"k">>, <<V("m")>>, <<Let(<<"v">>, <<r>>, <<If(P("=", <<V("k"), V("m")>>), V("v"), T(99))>>)>>), h),
  Rec(ix, LAMBDA r : Try(Rethrow, <<r>>), h),
  Rec(ix, LAMBDA r : Let(<<"k">>, <<V("m")>>, <<Try(Fn(<<"e">>, "", <<If(P("=", <<V("k"), V("m")>>), P("throw", <<V("e")>>), T(99))>>), <<Let(<<"v">>, <<r>>, <<V("v")>>)>>)>>), h),
  Rec(ix, LAMBDA r : Let(<<"v">>, <<C(Nil)>>, <<N("dotimes", "w", <<>>, <<Num(1), Set("v", r)>>), V("v")>>), h),
  Rec(ix, LAMBDA r : Ret(r), h),
  Rec(ix, LAMBDA r : Call(Fn(<<>>, "", <<r>>), <<>>), h),
  Rec(ix, LAMBDA r : Try(Fn(<<"e">>, "", <<r>>), <<P("throw", <<V("m")>>)>>), h),
  Do(<<Def("ra", Fn(<<"m">>, "r", <<If(P("<", <<V("m"), Num(1)>>), h, P("car", <<P("list", <<N("apply", "", <<>>, <<V("ra"), P("list", <<P("-", <<V("m"), Num(1)>>), V("r")>>)>>)>>)>>))>>)), Call(V("ra"), <<Size(ix)>>)>>),
  Do(<<Def("rb", Fn(<<"m", "f">>, "", <<If(P("<", <<V("m"), Num(1)>>), h, Call(V("f"), <<P("-", <<V("m"), Num(1)>>), V("f")>>))>>)), Call(V("rb"), <<Size(ix), V("rb")>>)>>),
  (* with many operands, or scopes, around every call *)
  Rec(ix, LAMBDA r : Call(V("f200"), [j \in 1..199 |-> Num(j)] \o <<r>>), h),
  Rec(ix, LAMBDA r : LetChain(30, r), h)
>>
(* many rounds of a loop leave nothing behind *)
Rounds(ix, h) == <<
  Let(<<"c">>, <<Num(0)>>, <<N("dotimes", "i", <<>>, <<Size(ix), IncV("c")>>), Count("c", ix), h>>),
  Let(<<"c">>, <<Num(0)>>, <<N("dotimes", "i", <<>>, <<Size(ix), Try(Fn(<<"e">>, "", <<If(P("=", <<P("car", <<V("e")>>), V("i")>>), IncV("c"), T(99))>>), <<Let(<<"q">>, <<V("i")>>, <<P("list", <<Num(1), P("throw", <<V("q")>>)>>)>>)>>)>>), Count("c", ix), h>>),
  Let(<<"c">>, <<Num(0)>>, <<While(Upto("c", Size(ix)), <<Let(<<"q">>, <<V("c")>>, <<Call(Fn(<<>>, "", <<Let(<<"w">>, <<V("q")>>, <<IncV("c"), Ret(V("w"))>>)>>), <<>>)>>)>>), Count("c", ix), h>>),
  Let(<<"c", "l">>, <<Num(0), C(Nil)>>, <<N("dotimes", "i", <<>>, <<Size(ix), Set("l", P("cons", <<V("i"), V("l")>>))>>), N("doseq", "q", <<>>, <<V("l"), IncV("c")>>), Count("c", ix), h>>),
  Let(<<"c">>, <<Num(0)>>, <<N("dotimes", "i", <<>>, <<Size(ix), P("list", <<Num(1), Try(Fn(<<"e">>, "", <<IncV("c")>>), <<P("list", <<Num(1), Num(2), P("+", <<V("i"), C(K("q"))>>)>>)>>)>>)>>), Count("c", ix), h>>)
>>

(* many different constants *)
Kx(i, j) == C(K("k" \o i \o "x" \o ToString(j)))
Many(ix) == Reps(ix, LAMBDA i : P("list", [j \in 1..40 |-> Kx(i, j)]))
Consts(ix, h) == <<
  Do(Many(ix) \o <<h>>),
  Call(Fn(<<>>, "", Many(ix) \o <<Def("zz", Num(3)), Set("zz", P("list", <<V("zz"), h>>)), P("cadr", <<V("zz")>>)>>), <<>>),
  Let(<<"r">>, <<h>>, Many(ix) \o <<Let(<<"zz">>, <<C(K("yy"))>>, <<Set("r", P("list", <<V("r"), V("zz")>>))>>), P("car", <<V("r")>>)>>),
  Do(Many(ix) \o <<Call(Fn(<<"m", "zz">>, "", <<Set("zz", h), P("list", <<V("zz"), V("m")>>)>>), <<C(K("qq")), Num(5)>>)>>)
>>
(* many operands waiting for one that is still being worked out *)
F40 == Fn([i \in 1..30 |-> "a" \o ToString(i)], "", <<P("list", <<V("a1"), V("a15"), V("a29")>>), V("a30")>>)
Wait(i, g) == Call(V("f0"), [j \in 1..29 |-> IF j % 5 = 0 THEN ZK(i) ELSE Num(j)] \o <<g>>)
Operands(ix, h) == <<
  Let(<<"f0">>, <<F40>>, <<Nests(ix, LAMBDA i, g : Wait(i, g), h)>>),
  Let(<<"f0">>, <<F40>>, <<N("eval", "", <<>>, <<Nests(ix, LAMBDA i, g : Wait(i, g), h)>>)>>),
  Let(<<"f0">>, <<F40>>, <<Call(Fn(<<"q">>, "", <<Nests(ix, LAMBDA i, g : Wait(i, g), h)>>), <<Num(1)>>)>>),
  Let(<<"f0">>, <<F40>>, <<Try(Fn(<<"e">>, "", <<Nests(ix, LAMBDA i, g : Wait(i, g), P("list", <<V("e"), h>>))>>), <<P("throw", <<C(K("a"))>>)>>)>>),
  Let(<<"f0">>, <<F40>>, <<N("apply", "", <<>>, <<Fn(<<"q">>, "", <<Nests(ix, LAMBDA i, g : Wait(i, g), h)>>), P("list", <<Num(1)>>)>>)>>),
  Let(<<"f0">>, <<F40>>, <<N("meth", "m", <<>>, <<Fn(<<"q">>, "", <<Nests(ix, LAMBDA i, g : Wait(i, Let(<<Z(i)>>, <<Num(1)>>, <<g>>)), h)>>)>>)>>),
  Let(<<"f0">>, <<F40>>, <<N("eval", "", <<>>, <<Nests(ix, LAMBDA i, g : Let(<<Z(i)>>, <<ZK(i)>>, <<Try(Rethrow, <<Wait(i, g)>>)>>), h)>>)>>)
>>

NPad == Len(Pads(Mark))
NLong == Len(Long(<<>>, C(Nil)))
Sizes == <<NLong * NPad, Len(Wide(Mark, C(Nil))), Len(Args(Mark, C(Nil))), Len(Deep(Mark, C(Nil))), Len(Calls(Mark, C(Nil))), Len(Rounds(Mark, C(Nil))),
           Len(Consts(Mark, C(Nil))), Len(Operands(Mark, C(Nil)))>>
Grow(g, k, ix, h) ==
  (CASE g = 1 -> Long(Pads(ix)[1 + ((k - 1) % NPad)], h)[1 + ((k - 1) \div NPad)]
    [] g = 2 -> Wide(ix, h)[k]
    [] g = 3 -> Args(ix, h)[k]
    [] g = 4 -> Deep(ix, h)[k]
    [] g = 5 -> Calls(ix, h)[k]
    [] g = 6 -> Rounds(ix, h)[k]
    [] g = 7 -> Consts(ix, h)[k]
    [] g = 8 -> Operands(ix, h)[k])

Ctx(d, c, h) == IF c <= NP THEN Plain(d, h)[c] ELSE Throwing(d, h)[c - NP]
(* the construct inside a context, or around one *)
Prog(s, ix) == Whole(IF s.in THEN Ctx(1, s.c, Grow(s.g, s.k, ix, s.l)) ELSE Grow(s.g, s.k, ix, Ctx(1, s.c, s.l)))

RunF(x) == LET r == Ev(x, 1, [S0 EXCEPT !.fl = 3000]) IN
           IF r.o = "f" THEN [o |-> "f", v |-> Nil, tr |-> <<>>]
           ELSE [o |-> IF r.o = "t" THEN "t" ELSE "v", v |-> r.v, tr |-> r.s.tr]
Blank == C(Nil)
Leafs == PlainLeaf \o ThrowLeaf
Pick(s, S) == IF RND THEN {RandomElement(S)} ELSE S
Init == st \in {[g |-> g, k |-> 0, c |-> 0, l |-> Blank, in |-> TRUE] : g \in 1..8}
Next == \/ st.k = 0 /\ \E k \in 1..Sizes[st.g] : st' = [st EXCEPT !.k = k]
        \/ st.k > 0 /\ st.c = 0 /\ \E c \in 1..(NP + NT) : \E b \in Pick(st, BOOLEAN) : \E i \in Pick(st, DOMAIN Leafs) : st' = [st EXCEPT !.c = c, !.in = b, !.l = Leafs[i]]
(* random constructs, for the counts around the width of the encodings *)
SimInit == st = [g |-> 1, k |-> 1, c |-> 1, l |-> Blank, in |-> TRUE]
SimNext == \E g \in {RandomElement({i \in 1..8 : st.g > 0})} : \E k \in {RandomElement(1..Sizes[g])} :
           st' = [g |-> g, k |-> k, c |-> RandomElement({i \in 1..(NP + NT) : st.g > 0}), l |-> Leafs[RandomElement({i \in DOMAIN Leafs : st.g > 0})], in |-> RandomElement({b \in BOOLEAN : st.g > 0})]
Full == st.c > 0
Res(n) == RunF(Prog(st, Ix(n)))
(* the law: the number of parts makes no difference *)
Law == Full => LET r == Res(1) IN \A n \in NS : Res(n) \in {r, [o |-> "f", v |-> Nil, tr |-> <<>>]}
Emit == Full => LET r == Res(1) IN r.o = "f" \/ PrintT("@" \o ToJson([id |-> [g |-> st.g, k |-> st.k, c |-> st.c], p |-> Prog(st, Mark), r |-> r]))
===============================================================================
