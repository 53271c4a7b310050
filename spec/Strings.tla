------------------------------ MODULE Strings ------------------------------
(***************************************************************************)
(* The string functions, defined on sequences of bytes (0..255).           *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets

NoArg == <<"n">>                            \* an optional argument not given
MaxI(a, b) == IF a > b THEN a ELSE b
MinI(a, b) == IF a < b THEN a ELSE b
SetMin(S) == CHOOSE x \in S : \A y \in S : x <= y
SetMax(S) == CHOOSE x \in S : \A y \in S : x >= y

\* The bytes from position start up to (not including) stop
Cut(s, start, stop) ==
    LET b == MaxI(0, start)
        e == IF stop = NoArg THEN Len(s) ELSE MinI(Len(s), MaxI(0, stop[2]))
    IN  IF e <= b THEN <<>> ELSE SubSeq(s, b + 1, e)

\* t is found in s at (0-based) position p
At(s, t, p) == p >= 0 /\ p + Len(t) <= Len(s) /\ SubSeq(s, p + 1, p + Len(t)) = t
\* The first/last position from which on/up to which t occurs, -1 if there is none.
\* The empty string occurs nowhere.
IndexOf(s, t, start) ==
    LET b == IF start = NoArg THEN 0 ELSE MaxI(0, start[2])
        S == {p \in b .. Len(s) - Len(t) : At(s, t, p)}
    IN  IF t = <<>> \/ S = {} THEN -1 ELSE SetMin(S)
LastIndexOf(s, t, start) ==
    LET S == {p \in 0 .. Len(s) : (start = NoArg \/ p <= start[2]) /\ At(s, t, p)}
    IN  IF t = <<>> \/ S = {} THEN -1 ELSE SetMax(S)

\* The same, position by position
RECURSIVE First(_, _, _)
First(s, t, p) == IF p + Len(t) > Len(s) THEN -1 ELSE IF s[p + 1] = t[1] /\ At(s, t, p) THEN p ELSE First(s, t, p + 1)
RECURSIVE SplitAt(_, _, _)
SplitAt(s, sep, p) ==
    LET q == First(s, sep, p)
    IN  IF q < 0 THEN <<Cut(s, p, NoArg)>>
        ELSE <<Cut(s, p, <<"i", q>>)>> \o SplitAt(s, sep, q + Len(sep))
Split(s, sep) == IF sep = <<>> THEN [i \in 1 .. Len(s) |-> <<s[i]>>] ELSE SplitAt(s, sep, 0)

RECURSIVE Concat(_)
Concat(l) == IF l = <<>> THEN <<>> ELSE l[1] \o Concat(Tail(l))
RECURSIVE Glue(_, _)
Glue(l, g) == IF l = <<>> THEN <<>> ELSE IF Len(l) = 1 THEN l[1] ELSE l[1] \o g \o Glue(Tail(l), g)

White(c) == c = 32 \/ (c >= 9 /\ c <= 13)
Trim(s) ==
    LET S == {i \in 1 .. Len(s) : ~White(s[i])}
    IN  IF S = {} THEN <<>> ELSE SubSeq(s, SetMin(S), SetMax(S))

Upper(c) == IF c >= 97 /\ c <= 122 THEN c - 32 ELSE c
Lower(c) == IF c >= 65 /\ c <= 90 THEN c + 32 ELSE c
UpperCase(s) == [i \in 1 .. Len(s) |-> Upper(s[i])]
LowerCase(s) == [i \in 1 .. Len(s) |-> Lower(s[i])]
Capitalize(s) == [i \in 1 .. Len(s) |-> IF i = 1 \/ White(s[MaxI(1, i - 1)]) THEN Upper(s[i]) ELSE Lower(s[i])]

\* n characters: the pattern is repeated as a whole, and what is too much is cut
\* off at the padded side(s)
Rep(p, k) == [i \in 1 .. Len(p) * k |-> p[((i - 1) - ((i - 1) \div Len(p)) * Len(p)) + 1]]
CeilDiv(a, b) == (a + b - 1) \div b
PadStart(s, n, p) ==
    LET r == IF n > Len(s) /\ p # <<>> THEN Rep(p, CeilDiv(n - Len(s), Len(p))) \o s ELSE s
    IN  IF Len(r) > n THEN SubSeq(r, Len(r) - MaxI(0, n) + 1, Len(r)) ELSE r
PadEnd(s, n, p) ==
    LET r == IF n > Len(s) /\ p # <<>> THEN s \o Rep(p, CeilDiv(n - Len(s), Len(p))) ELSE s
    IN  IF Len(r) > n THEN SubSeq(r, 1, MaxI(0, n)) ELSE r
PadMiddle(s, n, p) ==
    LET k == IF n > Len(s) /\ p # <<>> THEN CeilDiv(n - Len(s), 2 * Len(p)) ELSE 0
        r == IF k > 0 THEN Rep(p, k) \o s \o Rep(p, k) ELSE s
        x == Len(r) - n
        b == x - (x \div 2)
    IN  IF x > 0 THEN (IF n <= 0 THEN <<>> ELSE SubSeq(r, b + 1, b + n)) ELSE r

\* Paths
Dot == 46
Slash == 47
Extension(s) == LET p == LastIndexOf(s, <<Dot>>, NoArg) IN IF p < 0 THEN s ELSE Cut(s, p + 1, NoArg)
WithoutExt(s) == LET p == LastIndexOf(s, <<Dot>>, NoArg) IN IF p < 0 THEN s ELSE Cut(s, 0, <<"i", p>>)
Dirname(s) == LET p == LastIndexOf(s, <<Slash>>, NoArg) IN IF p < 0 THEN <<>> ELSE Cut(s, 0, <<"i", p>>)
Basename(s) == LET p == LastIndexOf(s, <<Slash>>, NoArg) IN IF p < 0 THEN s ELSE Cut(s, p + 1, NoArg)
RoundText(s, d) == LET p == LastIndexOf(s, <<Dot>>, NoArg) IN IF p < 0 THEN s ELSE Cut(s, 0, <<"i", p + 1 + d>>)

\* Laws that tie the functions together
Laws(s, t, n) ==
    /\ t # <<>> => Glue(Split(s, t), t) = s
    /\ Concat(Split(s, <<>>)) = s
    /\ t # <<>> => First(s, t, 0) = IndexOf(s, t, NoArg)
    /\ Cut(s, 0, <<"i", n>>) \o Cut(s, MaxI(0, n), NoArg) = s
    /\ (IndexOf(s, t, NoArg) < 0) = (LastIndexOf(s, t, NoArg) < 0)
    /\ IndexOf(s, t, NoArg) <= LastIndexOf(s, t, NoArg)
    /\ Trim(Trim(s)) = Trim(s)
    /\ LowerCase(UpperCase(s)) = LowerCase(s)
    /\ n >= 0 /\ t # <<>> => Len(PadStart(s, n, t)) = n /\ Len(PadEnd(s, n, t)) = n /\ Len(PadMiddle(s, n, t)) = n
    /\ LastIndexOf(s, <<Slash>>, NoArg) >= 0 => Dirname(s) \o <<Slash>> \o Basename(s) = s
=============================================================================
