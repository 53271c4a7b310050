------------------------------ MODULE StrEnum -------------------------------
(***************************************************************************)
(* Applications of the string functions (Init/Next), and histories that    *)
(* build strings from strings (SimInit/SimNext).                           *)
(***************************************************************************)
EXTENDS Fmt, TLC, Json
CONSTANTS MODE
VARIABLES app

SeqsUpTo(A, n) == UNION {[1 .. k -> A] : k \in 0 .. n}
Opt(S) == {NoArg} \cup {<<"i", x>> : x \in S}
I(n) == <<"i", P!FromSmall(n)>>
S(b) == <<"s", b>>
Text(x) == x[2]
Big == 2147483647

Plain == {<<>>, <<97>>, <<97, 98>>, <<0, 255, 10>>, <<97, 46, 47, 98>>, <<32, 97, 32, 98, 32>>, <<65, 0, 97, 122, 90, 91, 96, 123, 64>>}
Cases == {0, 9, 10, 13, 14, 32, 47, 64, 65, 90, 91, 96, 97, 122, 123, 128, 193, 225, 255}
Alls == [i \in 1 .. 256 |-> i - 1]
Vals == {<<"n">>, <<"b", 0>>, <<"b", 1>>, I(0), I(-7), I(255), I(123456), <<"i", P!Min64>>, <<"i", P!Max64>>, S(<<>>), S(<<97, 98>>), S(<<97, 98, 99, 100, 101, 102, 103, 104, 105>>), S(<<123, 125>>), S(<<34, 0, 92>>),
         <<"k", <<107>>>>, <<"y", <<110>>>>, <<"f", 0, <<9, 9>>, <<1, 2, 3, 4>>>>, <<"f", 1, <<0>>, <<5>>>>, <<"f", 0, <<3>>, <<0>>>>,
         P!List(<<I(1), S(<<97>>)>>), <<"a", <<I(1)>>>>}
Some == {<<"n">>, <<"b", 0>>, I(12), S(<<>>), S(<<97>>), <<"k", <<107>>>>, P!List(<<S(<<98>>)>>)}
FmtVars == [x \in {<<97>>, <<98>>} |-> IF x = <<97>> THEN I(5) ELSE S(<<118, 119>>)]

Fs == {"cut", "index", "last", "split", "split2", "trim", "case", "pad", "padi", "path", "ext?", "round", "ref", "bases", "join", "cat", "codes", "eq", "fmt1", "fmt2", "fmtraw"}
Aligns == {<<>>, <<60>>, <<94>>, <<62>>}
Widths == {<<>>, <<48>>, <<49>>, <<51>>, <<54>>, <<48, 51>>, <<48, 56>>, <<49, 50>>}
Precs == {<<>>, <<46>>, <<46, 48>>, <<46, 50>>, <<46, 49, 48>>}
Bases == {<<>>, <<100>>, <<120>>, <<88>>, <<111>>, <<98>>}
Dbg == {<<>>, <<63>>}
Hole(name, sp) == <<123>> \o name \o (IF sp = <<>> THEN <<>> ELSE <<58>> \o sp) \o <<125>>
Lits == {<<>>, <<97>>, <<58>>, <<0, 255>>}
Holes == {Hole(n, sp) : n \in {<<>>, <<48>>, <<49>>, <<97>>}, sp \in {<<>>, <<51>>}} \cup {<<123, 58, 125>>, Hole(<<48>>, <<120>>), Hole(<<98>>, <<60, 52>>), Hole(<<122>>, <<>>), Hole(<<>>, <<113>>)}

\* A family is enumerated from several starting points, to share the work
Params(f) == CASE f \in {"fmt1", "fmt2"} -> (IF f = "fmt1" THEN {a \o w : a \in Aligns, w \in Widths} ELSE {a \o h : a \in Lits, h \in Holes})
               [] f = "fmtraw" -> SeqsUpTo({97, 123, 125, 48, 58, 120}, 2)
               [] f \in {"index", "last"} -> SeqsUpTo({97, 0}, 3)
               [] OTHER -> {<<>>}
Args(f, q) ==
    CASE f = "cut" -> {<<[i \in 1 .. n |-> IF i = 2 THEN 0 ELSE 252 + i], a, e>> : n \in 0 .. 3, a \in (-2 .. 5) \cup {Big, -Big}, e \in Opt((-2 .. 5) \cup {Big, -Big})}
      [] f \in {"index", "last"} -> {<<s, t, p>> : s \in SeqsUpTo({97, 0}, 5), t \in {q}, p \in Opt((-1 .. 6) \cup {Big, -Big})}
      [] f = "split" -> {<<s, t>> : s \in SeqsUpTo({97, 44}, 6), t \in SeqsUpTo({97, 44}, 2)}
      [] f = "split2" -> {<<s, t>> : s \in SeqsUpTo({0, 200, 255}, 4), t \in SeqsUpTo({0, 255}, 3)}
      [] f = "trim" -> {<<s>> : s \in SeqsUpTo({32, 9, 10, 97, 14, 160}, 4)} \cup {<<<<c>>>> : c \in 0 .. 255} \cup {<<<<c, 97, c>>>> : c \in 0 .. 255}
      [] f = "case" -> {<<s>> : s \in SeqsUpTo(Cases, 2) \cup SeqsUpTo({32, 10, 65, 97, 49}, 4) \cup {Alls, Reverse(Alls)} \cup {<<c, 97, c>> : c \in 0 .. 255}}
      [] f = "pad" -> {<<s, n, p>> : s \in {<<>>, <<97>>, <<97, 98>>, <<97, 98, 99>>, <<97, 98, 99, 100, 101>>}, n \in (-2 .. 9) \cup {31, 64}, p \in {NoArg, S(<<>>), S(<<120>>), S(<<120, 121>>), S(<<120, 121, 0>>), S(<<48, 49, 50, 51, 52>>)}}
      [] f = "padi" -> {<<I(-12), n, p>> : n \in 0 .. 6, p \in {NoArg, S(<<48>>)}}
      [] f = "path" -> {<<s>> : s \in SeqsUpTo({97, 46, 47}, 6)}
      [] f = "ext?" -> {<<s, e>> : s \in SeqsUpTo({97, 66, 46}, 4), e \in {<<<<97>>>>, <<<<98>>>>, <<<<>>>>, <<<<98>>, <<97>>>>, <<<<97, 98>>, <<97>>, <<98, 97>>>>}}
      [] f = "round" -> {<<s, n>> : s \in SeqsUpTo({49, 46}, 5), n \in 0 .. 3}
      [] f = "ref" -> {<<s, i>> : s \in Plain, i \in (-1 .. 9) \cup {Big, -Big}}
      [] f = "bases" -> {<<x>> : x \in {I(n) : n \in (-3 .. 70) \cup {127, 128, 255, 256, 511, 512, 4095, 65535, 65536, Big}} \cup {<<"i", P!Min64>>, <<"i", P!Max64>>, <<"i", <<1, 2, 3, 4, 5, 6, 7, 8>>>>, <<"i", <<0, 0, 0, 0, 1, 0, 0, 0>>>>, <<"i", <<255, 255, 255, 255, 255, 255, 255, 127>>>>}}
      [] f = "join" -> {<<l, g>> : l \in SeqsUpTo(Some, 3), g \in {NoArg, S(<<>>), S(<<44>>), S(<<44, 0, 32>>)}}
      [] f = "cat" -> {<<l>> : l \in SeqsUpTo(Some, 3) \cup SeqsUpTo(Vals, 2)}
      [] f = "codes" -> {<<l>> : l \in SeqsUpTo({-1, 0, 65, 255, 256}, 4) \cup {Alls}}
      [] f = "eq" -> {<<s, t>> : s \in SeqsUpTo({97, 0}, 3) \cup Plain, t \in SeqsUpTo({97, 0}, 3) \cup Plain}
      [] f = "fmt1" -> {<<Hole(<<>>, q \o p \o IF k = 1 THEN b \o d ELSE d \o b), <<v>>>> : p \in Precs, b \in Bases, d \in Dbg, k \in 1 .. 2, v \in Vals}
      [] f = "fmt2" -> {<<q \o b \o i \o c, args>> : b \in {<<>>, <<97>>}, i \in Holes \cup {<<>>}, c \in {<<>>, <<125>>, <<48>>}, args \in SeqsUpTo({I(7), S(<<123, 48, 125>>)}, 2)}
      [] f = "fmtraw" -> {<<q \o s, args>> : s \in (IF Len(q) = 2 THEN SeqsUpTo({97, 123, 125, 48, 58, 120}, 3) ELSE {<<>>}), args \in SeqsUpTo({I(7)}, 1)}

Err == <<"e">>
L(l) == <<"l", l>>
Ss(l) == L([i \in DOMAIN l |-> S(l[i])])
Pad3(s, n, p) == LET q == IF p = NoArg THEN <<32>> ELSE p[2] IN <<PadStart(s, n, q), PadEnd(s, n, q), PadMiddle(s, n, q)>>
Ev(f, a) ==
    CASE f = "cut" -> S(Cut(a[1], a[2], a[3]))
      [] f = "index" -> I(IndexOf(a[1], a[2], a[3]))
      [] f = "last" -> I(LastIndexOf(a[1], a[2], a[3]))
      [] f \in {"split", "split2"} -> Ss(Split(a[1], a[2]))
      [] f = "trim" -> S(Trim(a[1]))
      [] f = "case" -> Ss(<<UpperCase(a[1]), LowerCase(a[1]), Capitalize(a[1])>>)
      [] f = "pad" -> Ss(Pad3(a[1], a[2], a[3]))
      [] f = "padi" -> Ss(Pad3(P!DecI(a[1][2]), a[2], a[3]))
      [] f = "path" -> Ss(<<Extension(a[1]), WithoutExt(a[1]), Dirname(a[1]), Basename(a[1])>>)
      [] f = "ext?" -> <<"b", \E i \in DOMAIN a[2] : LowerCase(Extension(a[1])) = a[2][i]>>
      [] f = "round" -> S(RoundText(a[1], a[2]))
      [] f = "ref" -> IF a[2] >= 0 /\ a[2] < Len(a[1]) THEN I(a[1][a[2] + 1]) ELSE Err
      [] f = "bases" -> LET d == S(P!DecI(a[1][2]))
                            b(k) == IF P!IsNeg(a[1][2]) THEN Err ELSE S(BaseText(a[1][2], k))
                            x == b(4)
                        IN  L(<<d, b(1), b(3), x, IF x = Err THEN Err ELSE S(LowerCase(x[2]))>>)
      [] f = "join" -> S(Glue([i \in DOMAIN a[1] |-> P!Write(a[1][i], TRUE)], IF a[2] = NoArg THEN <<>> ELSE a[2][2]))
      [] f = "cat" -> S(Concat([i \in DOMAIN a[1] |-> P!Write(a[1][i], TRUE)]))
      [] f = "codes" -> IF \E i \in DOMAIN a[1] : a[1][i] < 0 \/ a[1][i] > 255 THEN Err ELSE S(a[1])
      [] f = "eq" -> <<"b", a[1] = a[2]>>
      [] f \in {"fmt1", "fmt2", "fmtraw"} -> Format(a[1], a[2], FmtVars)

Init == \E f \in Fs : \E q \in Params(f) : app = <<f, q, "start">>
Next == /\ Len(app) = 3
        /\ \E a \in Args(app[1], app[2]) : app' = <<app[1], a>>
Lawful == Len(app) = 2 /\ app[1] \in {"split", "pad"}
          => Laws(app[2][1], IF app[1] = "split" THEN app[2][2] ELSE <<97, 98>>, IF app[1] = "split" THEN 2 ELSE app[2][2])
Emit == Len(app) = 2 => LET v == Ev(app[1], app[2]) IN v = <<"skip">> \/ PrintT("@" \o ToJson([f |-> app[1], a |-> app[2], v |-> v]))

(* --- histories: every step makes a new string (or several) from those before *)
RandStr(z) == LET n == RandomElement(IF RandomElement(1 .. 25) = 1 THEN {255, 256} ELSE {0, 1, 3, 10, 17, 40}) IN RandomElement({[i \in 1 .. n |-> RandomElement({97, 98, 44, 46, 47, 32})], [i \in 1 .. n |-> RandomElement(0 .. 255)], [i \in 1 .. n |-> RandomElement({44, 32})]})
Pos(s) == RandomElement({0, Len(s), Len(s) - 1, Len(s) + 1, -1} \cup {RandomElement(0 .. Len(s))})
Ops(ss) ==
    LET s == RandomElement(DOMAIN ss)
        t == RandomElement(DOMAIN ss)
        a == Pos(ss[s])
        c == RandomElement(1 .. 15)
        sep == RandomElement({<<44>>, <<97>>, <<32, 44>>, <<>>} \cup {Cut(ss[s], a, <<"i", a + 2>>)})
    IN  CASE c = 1 -> <<"cut", s, a, <<"i", Pos(ss[s])>>>> [] c = 2 -> <<"cut", s, a, NoArg>>
          [] c = 3 -> <<"cat", s, t>> [] c = 4 -> <<"trim", s>> [] c = 5 -> <<"upper", s>> [] c = 6 -> <<"lower", s>> [] c = 7 -> <<"capitalize", s>>
          [] c = 8 -> <<"rejoin", s, sep, RandomElement({<<>>, <<45>>, <<44, 44>>})>>
          [] c = 9 -> <<"pad-start", s, Len(ss[s]) + RandomElement(-2 .. 9), sep>> [] c = 10 -> <<"pad-end", s, Len(ss[s]) + RandomElement(-2 .. 9), sep>>
          [] c = 11 -> <<"pad-middle", s, Len(ss[s]) + RandomElement(-2 .. 9), sep>>
          [] c = 12 -> <<"index", s, sep, a>> [] c = 13 -> <<"last", s, sep, a>> [] c = 14 -> <<"fmt", s, t>> [] c = 15 -> <<"path", s>>
Do(ss, op) ==
    LET s == ss[op[2]]
    IN  CASE op[1] = "cut" -> <<Cut(s, op[3], op[4])>> [] op[1] = "cat" -> <<s \o ss[op[3]] \o s>> [] op[1] = "trim" -> <<Trim(s)>>
          [] op[1] = "upper" -> <<UpperCase(s)>> [] op[1] = "lower" -> <<LowerCase(s)>> [] op[1] = "capitalize" -> <<Capitalize(s)>>
          [] op[1] = "rejoin" -> <<Glue(Split(s, op[3]), op[4])>>
          [] op[1] = "pad-start" -> <<PadStart(s, op[3], op[4])>> [] op[1] = "pad-end" -> <<PadEnd(s, op[3], op[4])>> [] op[1] = "pad-middle" -> <<PadMiddle(s, op[3], op[4])>>
          [] op[1] = "index" -> <<P!DecI(P!FromSmall(IndexOf(s, op[3], <<"i", op[4]>>)))>>
          [] op[1] = "last" -> <<P!DecI(P!FromSmall(LastIndexOf(s, op[3], <<"i", op[4]>>)))>>
          [] op[1] = "fmt" -> <<<<60>> \o s \o <<124>> \o PadMiddle(ss[op[3]], 9, <<32>>) \o s>>
          [] op[1] = "path" -> <<Basename(s) \o <<124>> \o Dirname(s) \o <<124>> \o Extension(s)>>
SimInit == app = [ss |-> <<>>, ops |-> <<>>, done |-> FALSE]
SimNext == /\ ~app.done
           /\ IF Len(app.ss) < 3 THEN \E s \in {RandStr(Len(app.ss))} : app' = [app EXCEPT !.ss = Append(@, s)]
              ELSE \E op \in {Ops(app.ss)} :
                app' = LET r == Do(app.ss, op) IN [(IF Len(r[1]) > 400 THEN app ELSE [app EXCEPT !.ss = @ \o r, !.ops = Append(@, op)]) EXCEPT !.done = Len(app.ops) >= 11]
SimEmit == app.done => PrintT("@" \o ToJson([ss |-> app.ss, ops |-> app.ops]))
=============================================================================
