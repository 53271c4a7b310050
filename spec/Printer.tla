------------------------------- MODULE Printer ---------------------------------
(* Writing values as text, the other direction of Reader.tla, and values built  *)
(* step by step: around every value lists, pairs, arrays, trees and quotes.      *)
EXTENDS PrintDef, TLC, Json
CONSTANTS DEPTH
VARIABLES v

(* ---------------------------------------------------------------- values *)
I(n) == <<"i", FromSmall(n)>>
S(b) == <<"s", b>>
Big18 == IntOf([i \in 1..18 |-> 9], 10)
Names == {<<97>>, <<98, 99>>, <<113, 117, 111, 116, 101>>, <<43>>, <<45>>, <<45, 62, 120>>, <<60, 61, 62, 63, 33, 42, 38, 37, 36, 47, 94, 95>>, <<97, 49>>, <<195, 164>>, <<117, 110, 113, 117, 111, 116, 101>>, [i \in 1..93 |-> 97 + (i - 26 * (i \div 26))]}
Strings == {<<>>, <<120>>, <<34>>, <<92>>, <<0>>, <<97, 0, 98>>, <<10, 13, 9>>, <<7, 8, 11, 12, 27>>, <<40, 59, 35, 41>>, <<32>>, <<195, 164, 255, 128, 1, 127>>, <<92, 110>>, <<34, 34>>, [i \in 1..256 |-> i - 1]}
Fracs == {<<"f", n, w, f>> : n \in {0, 1}, w \in {<<1>>, <<1, 2, 3, 4, 5, 6, 7>>, <<0>>}, f \in {<<0>>, <<5>>, <<0, 0, 0, 0, 0, 1>>, <<1, 2, 3, 4, 5, 6>>, <<3>>, <<9, 9, 9, 9, 9, 9>>, <<2, 5>>, <<0, 7>>}} \ {<<"f", 1, <<0>>, <<0>>>>}
Leaves == {Nil, <<"b", 0>>, <<"b", 1>>, I(0), I(1), I(-1), I(42), I(-100000), I(2147483647), <<"i", Big18>>, <<"i", Neg(Big18)>>, I(10)}
          \cup {Sym(n) : n \in Names} \cup {<<"k", n>> : n \in Names} \cup {S(b) : b \in Strings} \cup Fracs
          \cup {<<"u", <<0, 255, 169>>>>, <<"u", <<>>>>, <<"a", <<>>>>, <<"t", <<>>>>}
(* a few that go beside the value *)
Side == {Nil, <<"b", 0>>, I(7), Sym(<<97>>), Sym(NQuote), <<"k", <<107>>>>, S(<<34, 0, 92>>), <<"f", 1, <<0>>, <<2, 5>>>>}
Pair(a, b) == IF b[1] = "l" THEN <<"l", <<a>> \o b[2], b[3]>> ELSE <<"l", <<a>>, b>>
Around(x) ==
  {Pair(x, Nil), <<"a", <<x>>>>, <<"t", <<<<<<120>>, x>>>>>>, List(<<Sym(NQuote), x>>)}
  \cup UNION {{Pair(x, s), Pair(s, x), List(<<x, s>>), List(<<s, x>>), List(<<s, x, s>>), <<"a", <<s, x>>>>, <<"a", <<x, s, x>>>>, <<"t", <<<<<<120>>, s>>, <<<<121>>, x>>>>>>,
              <<"t", <<<<<<97>>, x>>, <<<<98, 99>>, s>>, <<<<120>>, x>>, <<<<121>>, Nil>>>>>>} : s \in Side}
  \cup {List(<<Sym(n), x>>) : n \in {NQuasi, NUnq, NSpl, NArr, NTree, NRef}} \cup {List(<<x, Sym(NQuote), x>>), Pair(Sym(NQuote), x), List(<<Sym(NQuote), x, x>>)}
Init == v \in Leaves
Size(x) == Len(Write(x, FALSE))
RECURSIVE Dp(_)
Dp(x) == IF x[1] \in {"l", "a"} THEN 1 + (LET S0 == {Dp(x[2][i]) : i \in DOMAIN x[2]} IN IF S0 = {} THEN 0 ELSE CHOOSE m \in S0 : \A o \in S0 : o <= m)
         ELSE IF x[1] = "t" THEN 1 + (LET S0 == {Dp(x[2][i][2]) : i \in DOMAIN x[2]} IN IF S0 = {} THEN 0 ELSE CHOOSE m \in S0 : \A o \in S0 : o <= m)
         ELSE 0
Next == TLCGet("level") <= DEPTH /\ v' \in Around(v)
SimInit == v \in Leaves
SimNext == Size(v) < 2000 /\ Dp(v) < 12 /\ v' \in {RandomElement(Around(v))}

(* what is written reads back as the same value *)
RECURSIVE Eq(_, _)
Eq(a, b) == IF a[1] # b[1] THEN FALSE
            ELSE IF a[1] = "f" THEN a[2] = b[2] /\ a[3] = b[3] /\ TrimZeros(a[4]) = TrimZeros(b[4])
            ELSE IF a[1] = "a" THEN Len(a[2]) = Len(b[2]) /\ \A i \in DOMAIN a[2] : Eq(a[2][i], b[2][i])
            ELSE IF a[1] = "l" THEN Len(a[2]) = Len(b[2]) /\ (\A i \in DOMAIN a[2] : Eq(a[2][i], b[2][i])) /\ Eq(a[3], b[3])
            ELSE IF a[1] = "t" THEN Len(a[2]) = Len(b[2]) /\ \A i \in DOMAIN a[2] : \E j \in DOMAIN b[2] : a[2][i][1] = b[2][j][1] /\ Eq(a[2][i][2], b[2][j][2])
            ELSE a = b
RoundTrip == LET r == Read(Write(v, FALSE)) IN r.t = "ok" /\ Len(r.v) = 1 /\ Eq(r.v[1], v)
Emit == PrintT("@" \o ToJson([v |-> v, d |-> Write(v, TRUE)]))
SimEmit == TLCGet("level") > 2 => Emit

(* the texts the interpreter wrote, and the values it was given, as recorded *)
Back == JsonDeserialize("back.json")
BackInit == v \in {0 - i : i \in 0..63}
BackNext == v <= 0 /\ v' \in {i \in {64 * j - v : j \in 0..(Len(Back) \div 64)} : i >= 1 /\ i <= Len(Back)}
BackEmit == v <= 0 \/ LET r == Read(Back[v].x) IN (r.t = "ok" /\ Len(r.v) = 1 /\ Eq(r.v[1], Back[v].v)) \/ PrintT("@" \o ToJson([n |-> v]))
===============================================================================
