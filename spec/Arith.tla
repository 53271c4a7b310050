------------------------------- MODULE Arith --------------------------------
(* The rule table of arithmetic, comparison, bitwise and conversion           *)
(* operations.  One state is one application; its expected result is printed. *)
(* Floating point values are m * 2^e with an integer m; a result that has to  *)
(* be rounded is printed as the exact term, whose nearest double is the       *)
(* result (an error if that is infinite).                                     *)
EXTENDS Int64, TLC, Json, FiniteSets

CONSTANTS PART    \* which part of the table: "bin", "un", "nary", "cmp"
VARIABLES st

(* ---------------------------------------------------------- operands ------ *)
I(b, m, e) == [k |-> "int", b |-> b, m |-> m, e |-> e]      \* m*2^e: the nearest double
S(n) == I(FromSmall(n), n, 0)
P(n) == Shl(One, n)
Small == {-129, -128, -100, -64, -63, -7, -3, -2, -1, 0, 1, 2, 3, 5, 7, 8, 10, 63, 64, 65, 100, 127, 128, 255, 256, 1000, 65536, 16777217, 2147483647}
Big == { I(P(31), 1, 31), I(Neg(P(31)), -1, 31), I(P(32), 1, 32), I(Add(P(32), One), 1, 32), I(P(53), 1, 53), I(Add(P(53), One), 1, 53), I(Neg(Add(P(53), One)), -1, 53),
         I(P(62), 1, 62), I(Neg(P(62)), -1, 62), I(Max64, 1, 63), I(Min64, -1, 63), I(Add(Min64, One), -1, 63) }
Ints == {S(n) : n \in Small} \cup (Big \ {I(Add(P(32), One), 1, 32)})
F(m, e) == [k |-> "flt", m |-> m, e |-> e]
Floats == { F(0, 0), F(1, 0), F(-1, 0), F(2, 0), F(3, 0), F(1, -1), F(-1, -1), F(3, -1), F(5, -1), F(-5, -1), F(15, -2), F(100, 0), F(1, -10),
            F(16777217, 0), F(1, 31), F(1, 53), F(1, 63), F(-1, 63), F(1, 64), F(1, 1023), F(-1, 1023), F(1, -1074), F(3, -1073), F(1, -1022), F(1717986918, -34) }
O(s) == [k |-> s]
Others == {O("nil"), O("str"), O("str2"), O("key"), O("key2"), O("sym"), O("true"), O("false"), O("list")}
(* names in the order of their bytes, which count from 0 to 255: "", "ab", "abc", "ab" and a byte 127, two UTF-8 letters *)
Texts == <<<<"str0", "str", "str2", "str127", "stre", "strx">>, <<"key", "key2", "keye">>, <<"sym", "sym2", "syme">>>>
TextVals == UNION {{O(Texts[i][j]) : j \in DOMAIN Texts[i]} : i \in DOMAIN Texts}
Vals == Ints \cup Floats \cup Others
IsI(x) == x.k = "int"
IsF(x) == x.k = "flt"
Num(x) == IsI(x) \/ IsF(x)
Nil(x) == x.k = "nil"

(* ----------------------------------------------------------- results ------ *)
RI(b) == <<"I", b>>
RB(b) == <<"b", b>>
RF(m, e) == <<"R", <<m, e>>>>                 \* nearest double of the sum of the terms
RF2(m, e, n, f) == <<"R", <<m, e>>, <<n, f>>>>
RQ(a, b) == <<"Q", <<a.m, a.e>>, <<b.m, b.e>>>>  \* of the quotient
RM(a, b) == <<"M", <<a.m, a.e>>, <<b.m, b.e>>>>  \* of the remainder with the sign of the dividend
RX(a, b) == <<"X", <<a.m, a.e>>, <<b.m, b.e>>>>  \* of the product
Err == <<"e", "">>
Is(x) == <<"is", x>>                          \* the operand itself

(* comparison of m*2^e and n*2^f, all exact *)
Abs(m) == IF m < 0 THEN -m ELSE m
Sgn(m) == IF m < 0 THEN -1 ELSE IF m > 0 THEN 1 ELSE 0
RECURSIVE Norm(_, _)
Norm(m, e) == IF m >= 1073741824 THEN <<e, m>> ELSE Norm(2 * m, e - 1)
CmpMag(m, e, n, f) == LET a == Norm(Abs(m), e)  b == Norm(Abs(n), f) IN
  IF a = b THEN 0 ELSE IF a[1] < b[1] \/ (a[1] = b[1] /\ a[2] < b[2]) THEN -1 ELSE 1
CmpF(a, b) == IF Sgn(a.m) # Sgn(b.m) THEN (IF Sgn(a.m) < Sgn(b.m) THEN -1 ELSE 1)
              ELSE IF a.m = 0 THEN 0 ELSE Sgn(a.m) * CmpMag(a.m, a.e, b.m, b.e)
IsZ(x) == Num(x) /\ x.m = 0
Order(x, y) ==   \* -1, 0, 1; values of different kinds are not ordered
  IF IsI(x) /\ IsI(y) THEN Cmp(x.b, y.b)
  ELSE IF Num(x) /\ Num(y) THEN CmpF(x, y)
  ELSE LET at(i, z) == {j \in DOMAIN Texts[i] : Texts[i][j] = z.k}
           both == {i \in DOMAIN Texts : at(i, x) # {} /\ at(i, y) # {}} IN
       IF both = {} THEN 0
       ELSE LET i == CHOOSE i \in both : TRUE IN Sgn((CHOOSE j \in at(i, x) : TRUE) - (CHOOSE j \in at(i, y) : TRUE))
Same(x, y) == IF Num(x) /\ Num(y) THEN Order(x, y) = 0 ELSE x.k = y.k /\ ~(x.k = "list") /\ ~Num(x) /\ ~Num(y)

(* an exact dyadic a^n with a small result *)
RECURSIVE IPow(_, _)
IPow(m, n) == IF n = 0 THEN 1 ELSE m * IPow(m, n - 1)

Bin(op, a, b) ==
  CASE op \in {"+", "-", "*"} /\ IsI(a) /\ IsI(b) -> RI(CASE op = "+" -> Add(a.b, b.b) [] op = "-" -> Sub(a.b, b.b) [] op = "*" -> Mul(a.b, b.b))
    [] op = "+" /\ Num(a) /\ Num(b) -> RF2(a.m, a.e, b.m, b.e)
    [] op = "-" /\ Num(a) /\ Num(b) -> RF2(a.m, a.e, -b.m, b.e)
    [] op = "*" /\ Num(a) /\ Num(b) -> RX(a, b)
    [] op = "/" /\ Num(a) /\ Num(b) -> IF IsZ(b) THEN Err ELSE RQ(a, b)
    [] op = "rem" /\ IsI(a) /\ IsI(b) -> IF IsZ(b) THEN Err ELSE RI(Rem(a.b, b.b))
    [] op = "rem" /\ Num(a) /\ Num(b) -> IF IsZ(b) THEN Err ELSE RM(a, b)
    [] op = "pow" /\ IsI(a) /\ IsI(b) ->
         IF IsNeg(b.b) THEN (IF IsZ(a) THEN Err ELSE IF a.b = One THEN RI(One) ELSE IF a.b = Neg(One) THEN RI(IF b.b[1] % 2 = 1 THEN Neg(One) ELSE One) ELSE RI(Zero))
         ELSE RI(PowN(a.b, b.m))
    [] op = "pow" /\ Num(a) /\ Num(b) -> IF b.m < 0 THEN RF(1, a.e * b.m) ELSE RF(IPow(a.m, b.m), a.e * b.m)
    [] op \in {"+", "*"} /\ Nil(a) -> RI(IF op = "+" THEN Zero ELSE One)       \* no operand at all
    [] op = "+" /\ Nil(b) /\ Num(a) -> Is(a)
    [] op = "-" /\ Nil(b) /\ IsI(a) -> RI(Neg(a.b))
    [] op = "-" /\ Nil(b) /\ IsF(a) -> RF(-a.m, a.e)
    [] op \in {"rem", "pow"} /\ Nil(b) /\ Num(a) -> Is(a)
    [] op = "rem" /\ Nil(a) /\ Num(b) -> Is(b)
    [] op = "rem" /\ Nil(a) /\ Nil(b) -> <<"n">>
    [] op = "pow" /\ Nil(a) /\ Nil(b) -> <<"n">>
    [] op \in {"add/int", "sub/int", "mul/int", "div/int", "mod/int", "bit-and", "bit-or", "bit-xor", "bit-shift-left", "bit-shift-right"} /\ IsI(a) /\ IsI(b) ->
         IF op \in {"div/int", "mod/int"} /\ IsZ(b) THEN Err
         ELSE RI(CASE op = "add/int" -> Add(a.b, b.b) [] op = "sub/int" -> Sub(a.b, b.b) [] op = "mul/int" -> Mul(a.b, b.b)
                   [] op = "div/int" -> Quo(a.b, b.b) [] op = "mod/int" -> Rem(a.b, b.b)
                   [] op = "bit-and" -> And(a.b, b.b) [] op = "bit-or" -> Or(a.b, b.b) [] op = "bit-xor" -> Xor(a.b, b.b)
                   [] op = "bit-shift-left" -> Shl(a.b, Amount(b.b)) [] op = "bit-shift-right" -> Sar(a.b, Amount(b.b)))
    [] op \in {"bit-set", "bit-clear", "bit-flip"} /\ IsI(a) /\ IsI(b) ->
         LET m == Shl(One, Amount(b.b)) IN RI(CASE op = "bit-set" -> Or(a.b, m) [] op = "bit-clear" -> And(a.b, Not(m)) [] op = "bit-flip" -> Xor(a.b, m))
    [] op = "bit-test?" /\ IsI(a) /\ IsI(b) -> RB(Bit(a.b, Amount(b.b)) = 1)
    [] op = "<" -> RB(Order(a, b) < 0)
    [] op = "<=" -> RB(Order(a, b) <= 0)
    [] op = ">" -> RB(Order(a, b) > 0)
    [] op = ">=" -> RB(Order(a, b) >= 0)
    [] op = "=" -> RB(Same(a, b))
    [] op = "not=" -> RB(~Same(a, b))
    [] op = "min" -> IF Order(a, b) < 0 THEN Is(a) ELSE Is(b)
    [] op = "max" -> IF Order(a, b) > 0 THEN Is(a) ELSE Is(b)
    [] OTHER -> Err

Trunc(a) == IF IsI(a) THEN RI(a.b) ELSE IF ~IsF(a) THEN Err ELSE IF a.e < -30 THEN RI(Zero)
            ELSE IF a.e < 0 THEN RI(FromSmall(Sgn(a.m) * (Abs(a.m) \div (2^(-a.e)))))
            ELSE IF CmpF(a, F(1, 63)) >= 0 \/ CmpF(a, F(-1, 63)) < 0 THEN Err
            ELSE RI(Shl(FromSmall(a.m), a.e))
Un(op, a) ==
  CASE op = "bit-not" /\ IsI(a) -> RI(Not(a.b))
    [] op = "inc/int" /\ IsI(a) -> RI(Add(a.b, One))
    [] op = "popcount" /\ IsI(a) -> RI(FromSmall(PopCount(a.b)))
    [] op = "abs" /\ IsI(a) -> RI(Mag(a.b))
    [] op = "abs" /\ IsF(a) -> RF(Abs(a.m), a.e)
    [] op = "floor" /\ IsF(a) -> IF a.e >= 0 THEN Is(a) ELSE IF a.e < -30 THEN RF(IF a.m < 0 THEN -1 ELSE 0, 0) ELSE RF(a.m \div (2^(-a.e)), 0)
    [] op = "ceil" /\ IsF(a) -> IF a.e >= 0 THEN Is(a) ELSE IF a.e < -30 THEN RF(IF a.m > 0 THEN 1 ELSE 0, 0) ELSE RF(-((-a.m) \div (2^(-a.e))), 0)
    [] op = "round" /\ IsF(a) -> IF a.e >= 0 THEN Is(a) ELSE IF a.e < -30 THEN RF(0, 0)    \* half away from zero
                                 ELSE RF(Sgn(a.m) * ((2 * Abs(a.m) + 2^(-a.e)) \div (2 * 2^(-a.e))), 0)
    [] op = "int" -> Trunc(a)
    [] op = "float" /\ Num(a) -> RF(a.m, a.e)
    [] op = "zero?" -> RB(IsZ(a))
    [] op = "not-zero?" -> RB(~IsZ(a))
    [] op = "nil?" -> RB(Nil(a))
    [] op = "pos?" -> RB(Num(a) /\ a.m >= 0)
    [] op = "neg?" -> RB(Num(a) /\ a.m < 0)
    [] op = "zero-neg?" -> RB(~Num(a) \/ a.m <= 0)         \* what is not a number is not ordered
    [] op \in {"odd?", "even?"} -> LET t == Trunc(a) IN IF t = Err THEN Err ELSE RB((t[2][1] % 2 = 1) = (op = "odd?"))   \* of the integer part
    [] op = "inc" -> Bin("+", S(1), a)
    [] op = "dec" -> Bin("-", a, S(1))
    [] op = "-" -> Bin("-", a, O("nil"))
    [] op = "+" -> Bin("+", a, O("nil"))
    [] op = "sqrt" /\ Num(a) -> IF a.m < 0 THEN Err ELSE (CASE a.m = 0 -> RF(0, 0) [] a.m = 1 /\ a.e % 2 = 0 -> RF(1, a.e \div 2) [] a.m = 100 /\ a.e = 0 -> RF(10, 0))
    [] op = "cbrt" /\ Num(a) -> (CASE a.m = 0 -> RF(0, 0) [] a.m \in {8, -8} -> RF(a.m \div 4, 0) [] a.m \in {1, -1} -> RF(a.m, 0) [] a.m = 1000 -> RF(10, 0))
    [] op \in {"int?"} -> RB(IsI(a))
    [] op \in {"float?"} -> RB(IsF(a))
    [] op \in {"number?"} -> RB(Num(a))
    [] OTHER -> Err

BinOps == {"+", "-", "*", "/", "rem", "add/int", "sub/int", "mul/int", "div/int", "mod/int", "bit-and", "bit-or", "bit-xor", "bit-shift-left", "bit-shift-right",
           "bit-set", "bit-clear", "bit-flip", "bit-test?"}
CmpOps == {"<", "<=", "=", "not=", ">=", ">", "min", "max"}
UnOps == {"bit-not", "inc/int", "popcount", "abs", "floor", "ceil", "round", "int", "float", "zero?", "not-zero?", "nil?", "pos?", "neg?", "zero-neg?", "odd?", "even?",
          "inc", "dec", "-", "+", "int?", "float?", "number?"}
PowF(a) == IsF(a) /\ Abs(a.m) <= 5 /\ Abs(a.e) <= 63
PowN8(b) == Num(b) /\ b.e = 0 /\ Abs(b.m) <= 8
Defined(op, a, b) ==     \* where the result is exact, or an error
  op = "pow" => \/ IsI(a) /\ IsI(b) /\ (b.e = 0 \/ IsNeg(b.b))
                \/ PowF(a) /\ PowN8(b) /\ (b.m < 0 => a.m = 1)
                \/ (IsI(a) /\ a.m \in {1, 2, 3} /\ IsF(b) /\ b.e = 0 /\ b.m \in 0..3)
                \/ ~(Num(a) /\ Num(b))
(* Functions of the reals: the result is a double next to the value of the function at the operands, an    *)
(* integer standing for the double next to it; printed as <<"fn", function, operand(s)>>                    *)
FunOps == {"sqrt", "cbrt", "sin", "cos", "tan"}
RFn(op, as) == <<"fn", op, [i \in DOMAIN as |-> <<as[i].m, as[i].e>>]>>
FunDef(op, a) == (op = "sqrt" => Num(a) /\ a.m >= 0) /\ Num(a)
Fun1(op, a) == IF ~Num(a) \/ (IsI(a) /\ op \in {"sin", "cos", "tan"}) THEN Err ELSE IF op = "sqrt" /\ a.m < 0 THEN Err ELSE RFn(op, <<a>>)
Fun2(op, a, b) == IF ~(Num(a) /\ Num(b)) THEN Err ELSE RFn(op, <<a, b>>)
(* numbers as far apart in size as that neither their product nor a small power leaves the range *)
Mid == {x \in Ints \cup Floats : x.e \in -40..64}
SqrtOK(a) == ~Num(a) \/ a.m <= 0 \/ (a.m = 1 /\ a.e % 2 = 0) \/ (a.m = 100 /\ a.e = 0)
CbrtOK(a) == ~Num(a) \/ a.m \in {0} \/ (a.m \in {1, -1, 8, -8, 1000} /\ a.e = 0)

(* longer applications: from the left, and a failing step fails all *)
NInts == {S(0), S(1), S(-3), S(7), I(Max64, 1, 63), O("nil")}
NFlts == {F(1, -1), F(-5, -1), F(2, 0)}
Exact(x) == x.k = "int" => x.e = 0
Step(op, acc, x) == IF acc.k = "err" THEN acc
                    ELSE LET r == Bin(op, acc, x) IN
                      CASE r[1] = "I" -> I(r[2], IF \A i \in 3..8 : r[2][i] = 0 THEN r[2][1] + 256 * r[2][2] ELSE IF \A i \in 3..8 : r[2][i] = 255 THEN r[2][1] + 256 * r[2][2] - 65536 ELSE 0, 0)
                        [] r[1] = "is" -> r[2]
                        [] r[1] = "R" -> LET e == IF Len(r) = 2 THEN r[2][2] ELSE IF r[2][2] < r[3][2] THEN r[2][2] ELSE r[3][2] IN
                               F(FoldLeft(LAMBDA s, t : s + t[1] * 2^(t[2] - e), 0, Tail(r)), e)
                        [] r[1] = "X" -> F(r[2][1] * r[3][1], r[2][2] + r[3][2])
                        [] OTHER -> O("err")
NOps == {"+", "-", "*", "rem", "bit-and", "bit-or", "bit-xor", "add/int", "sub/int", "mul/int"}
NRes(op, s) == LET r == FoldLeft(LAMBDA acc, x : Step(op, acc, x), s[1], Tail(s)) IN
               IF r.k = "err" THEN Err ELSE IF r.k = "int" THEN RI(r.b) ELSE IF r.k = "flt" THEN RF(r.m, r.e) ELSE Is(r)
NSeqs == { s \in {<<a, b, c>> : a, b, c \in NInts \cup NFlts} \cup {<<a, b, c, d>> : a, b, c, d \in {S(2), S(-3), O("nil")} \cup NFlts} :
             /\ (\E i \in DOMAIN s : IsF(s[i])) => \A i \in DOMAIN s : ~(IsI(s[i]) /\ s[i].e # 0) }
NDef(op, s) == (op = "rem" => \A i \in DOMAIN s : IsI(s[i]) /\ ~(i > 1 /\ s[i].m = 0)) /\ (op \in {"+", "*", "-"} => s[1].k # "nil")

Case(op, args, res) == [c |-> 1, op |-> op, args |-> args, res |-> res]
St(op, a) == [c |-> 0, op |-> op, a |-> a]
(* the first operand is chosen initially, the others in the only step *)
Init == st \in CASE PART = "un" -> {St("", 0)}
                [] PART = "fun" -> {St("", 0)}
                [] PART = "nary" -> {St(op, 0) : op \in NOps}
                [] PART = "pow" -> {St("pow", a) : a \in Vals}
                [] PART = "bin" -> {St(op, a) : op \in BinOps, a \in Vals}
                [] PART = "cmp" -> {St(op, a) : op \in CmpOps, a \in Vals \cup TextVals}
Start == st.c = 0
Next == /\ Start
        /\ \/ /\ PART \in {"bin", "cmp", "pow"}
              /\ \E b \in IF PART = "cmp" THEN Vals \cup TextVals ELSE Vals : Defined(st.op, st.a, b) = TRUE /\ st' = Case(st.op, <<st.a, b>>, Bin(st.op, st.a, b))
           \/ PART = "un" /\ \/ \E op \in UnOps, a \in Vals : st' = Case(op, <<a>>, Un(op, a))
                             \/ \E a \in Vals : SqrtOK(a) = TRUE /\ st' = Case("sqrt", <<a>>, Un("sqrt", a))
                             \/ \E a \in Vals \cup {S(-8), S(1000), F(8, 0), F(-8, 0), F(1000, 0)} : CbrtOK(a) = TRUE /\ st' = Case("cbrt", <<a>>, Un("cbrt", a))
           \/ PART = "fun" /\ \/ \E op \in FunOps, a \in Vals : st' = Case(op, <<a>>, Fun1(op, a))
                              \/ \E a, b \in Vals : st' = Case("atan2", <<a, b>>, Fun2("atan2", a, b))
                              \/ \E a, b \in Mid : (IsF(a) /\ a.m > 0 /\ Abs(b.m) < 5 /\ b.e \in -40..0) = TRUE /\ st' = Case("pow", <<a, b>>, Fun2("pow", a, b))
           \/ PART = "nary" /\ \E s \in NSeqs : NDef(st.op, s) = TRUE /\ st' = Case(st.op, s, NRes(st.op, s))
Emit == ~Start => PrintT("@" \o ToJson(st))

(* Laws of the integers that the table itself has to satisfy *)
InitLaws == st \in {<<x.b, 0>> : x \in Ints}
NextLaws == st[2] = 0 /\ st' = <<st[1], 1>>
LawsHold == st[2] = 1 => LET a == st[1] IN \A b \in {x.b : x \in Ints} :
          /\ Add(a, b) = Add(b, a) /\ Sub(Add(a, b), b) = a /\ Mul(a, b) = Mul(b, a)
          /\ (b # Zero => Add(Mul(Quo(a, b), b), Rem(a, b)) = a)
          /\ Xor(a, b) = Sub(Or(a, b), And(a, b)) /\ Neg(Neg(a)) = a
          /\ (Lt(a, b) \/ Lt(b, a) \/ a = b) /\ ~(Lt(a, b) /\ Lt(b, a))
=============================================================================
