-------------------------------- MODULE Reader ---------------------------------
(* The grammar of the textual data syntax, as a function from a sequence of     *)
(* bytes to what reading it gives: [t |-> "ok", v |-> elements], an error, or    *)
(* "any" where the grammar leaves a text open (each such case is listed below).  *)
(* Values: <<"n">> <<"b", 0|1>> <<"i", 8 bytes>> <<"f", neg, digits, fraction>>  *)
(* <<"s", bytes>> <<"u", bytes>> <<"y", name>> <<"k", name>> <<"a", items>>      *)
(* <<"l", items, tail>> <<"t", pairs in the order given>>.                       *)
EXTENDS Int64, SequencesExt, FiniteSets

Nil == <<"n">>
Sym(n) == <<"y", n>>
List(s) == IF s = <<>> THEN Nil ELSE <<"l", s, Nil>>

WS == {9, 10, 11, 12, 13, 32}
Closing == {41, 93, 125}
Special == {40, 41, 91, 93, 123, 125, 35, 39, 34, 96, 59}          \* ( ) [ ] { } # ' " ` ;
Delim(c) == c \in WS \/ c \in Special
Digit == 48..57
Colon == 58
Dot == 46
Sep == {95, 44}                                                     \* _ ,

NQuote == <<113, 117, 111, 116, 101>>
NQuasi == <<113, 117, 97, 115, 105>> \o NQuote
NUnq == <<117, 110>> \o NQuote
NSpl == NUnq \o <<45, 115, 112, 108, 105, 99, 105, 110, 103>>
NArr == <<97, 114, 114, 97, 121, 47, 110, 101, 119>>
NTree == <<116, 114, 101, 101, 47, 110, 101, 119>>
NRef == <<114, 101, 102>>
CharNames == [n \in {<<66, 97, 99, 107, 115, 112, 97, 99, 101>>, <<84, 97, 98>>, <<76, 105, 110, 101, 102, 101, 101, 100>>,
                     <<82, 101, 116, 117, 114, 110>>, <<108, 102>>, <<99, 114>>} |->
              CASE Len(n) = 9 -> 8 [] Len(n) = 3 -> 9 [] Len(n) = 8 -> 10 [] Len(n) = 6 -> 13 [] n[1] = 108 -> 10 [] OTHER -> 13]
Escapes == [c \in {48, 97, 98, 116, 110, 118, 102, 114, 101, 34, 92} |->
            CASE c = 48 -> 0 [] c = 97 -> 7 [] c = 98 -> 8 [] c = 116 -> 9 [] c = 110 -> 10 [] c = 118 -> 11
              [] c = 102 -> 12 [] c = 114 -> 13 [] c = 101 -> 27 [] OTHER -> c]

Err == [t |-> "err"]
Open == [t |-> "any"]
Ok(v, p) == [t |-> "ok", v |-> v, p |-> p]
Comment(p) == [t |-> "com", p |-> p]

At(x, p) == IF p <= Len(x) THEN x[p] ELSE -1
RECURSIVE SkipWs(_, _), SkipLine(_, _), RunEnd(_, _), BlockEnd(_, _, _)
SkipWs(x, p) == IF At(x, p) \in WS THEN SkipWs(x, p + 1) ELSE p
SkipLine(x, p) == IF p > Len(x) \/ At(x, p) = 10 THEN p ELSE SkipLine(x, p + 1)
RunEnd(x, p) == IF p > Len(x) \/ Delim(x[p]) THEN p ELSE RunEnd(x, p + 1)      \* first position after a run of name characters
BlockEnd(x, p, d) ==                                                           \* after the |# that closes the comment, 0 if none does
  IF p + 1 > Len(x) THEN 0
  ELSE IF x[p] = 35 /\ x[p + 1] = 124 THEN BlockEnd(x, p + 2, d + 1)
  ELSE IF x[p] = 124 /\ x[p + 1] = 35 THEN IF d = 1 THEN p + 2 ELSE BlockEnd(x, p + 2, d - 1)
  ELSE BlockEnd(x, p + 1, d)

(* ---------------------------------------------------------------- numbers *)
DigitOf(c) == IF c \in Digit THEN c - 48 ELSE IF c \in 97..122 THEN c - 87 ELSE IF c \in 65..90 THEN c - 55 ELSE 99
Digits(r) == [i \in DOMAIN SelectSeq(r, LAMBDA c : c \notin Sep) |-> DigitOf(SelectSeq(r, LAMBDA c : c \notin Sep)[i])]
BadDigit(r, base) == \E i \in DOMAIN r : r[i] \notin Sep /\ DigitOf(r[i]) >= base
OddSep(r) == r = <<>> \/ r[1] \in Sep \/ r[Len(r)] \in Sep
MulAdd(a, base, d) == FoldLeft(LAMBDA st, i : LET s == a[i] * base + st.c IN [r |-> Append(st.r, s % 256), c |-> s \div 256], [r |-> <<>>, c |-> d], <<1,2,3,4,5,6,7,8>>).r
IntOf(ds, base) == FoldLeft(LAMBDA a, d : MulAdd(a, base, d), Zero, ds)
NonZero(ds) == IF \A i \in DOMAIN ds : ds[i] = 0 THEN 0 ELSE Len(ds) + 1 - (CHOOSE i \in DOMAIN ds : ds[i] # 0 /\ \A j \in 1..i - 1 : ds[j] = 0)
Number(r0, base, max, e) ==             \* r0 the whole run, e the position after it
  LET neg == r0 # <<>> /\ r0[1] = 45
      r == IF neg THEN Tail(r0) ELSE r0
      dots == {i \in DOMAIN r : r[i] = Dot}
      w == IF dots = {} THEN r ELSE SubSeq(r, 1, (CHOOSE i \in dots : \A j \in dots : i <= j) - 1)
      f == SubSeq(r, Len(w) + 2, Len(r))
  IN IF \E i \in DOMAIN r : r[i] < 32 THEN Open                       \* control characters that are not blanks
     ELSE IF BadDigit(w, base) THEN Err
     ELSE IF Len(Digits(w)) > max THEN Err
     ELSE IF dots # {} /\ base # 10 THEN Open                        \* fractions in other bases
     ELSE IF OddSep(w) THEN Open                                     \* no digits, separators that do not separate
     ELSE IF dots = {} THEN Ok(<<"i", IF neg THEN Neg(IntOf(Digits(w), base)) ELSE IntOf(Digits(w), base)>>, e)
     ELSE IF \E i \in DOMAIN f : f[i] # Dot /\ BadDigit(<<f[i]>>, base) THEN Err
     ELSE IF Cardinality(dots) > 1 THEN Err
     ELSE IF NonZero(Digits(f)) > max THEN Err
     ELSE IF OddSep(f) THEN Open                                     \* 1. and the like
     ELSE Ok(<<"f", IF neg THEN 1 ELSE 0, Digits(w), Digits(f)>>, e)

(* ---------------------------------------------------------------- symbols *)
RECURSIVE Chain(_, _)
Chain(v, segs) == IF segs = <<>> THEN v ELSE Chain(List(<<Sym(NRef), v, <<"k", segs[1]>>>>), Tail(segs))
SplitDots(r) == FoldLeft(LAMBDA st, c : IF c = Dot THEN Append(st, <<>>) ELSE [st EXCEPT ![Len(st)] = Append(@, c)], <<<<>>>>, r)
Symbol(r, e) ==
  LET n == Len(r)
      colons == {i \in DOMAIN r : r[i] = Colon}
      dots == \E i \in DOMAIN r : r[i] = Dot
      segs == SplitDots(r)
  IN IF \E i \in DOMAIN segs : Len(SelectSeq(segs[i], LAMBDA c : c # Colon)) > 93 THEN IF n > 120 /\ colons = {} /\ ~dots THEN [t |-> "one", p |-> e] ELSE Open   \* longer than names can be: one value or an error
     ELSE IF colons = {} /\ ~dots THEN Ok(Sym(r), e)
     ELSE IF ~dots THEN IF n = 1 THEN Open                           \* a lone colon
                        ELSE IF colons = {1} THEN Ok(<<"k", Tail(r)>>, e)
                        ELSE IF colons = {n} THEN Ok(<<"k", SubSeq(r, 1, n - 1)>>, e)
                        ELSE Err
     ELSE IF colons # {} THEN IF 1 \notin colons /\ n \notin colons /\ \A i \in colons : \A j \in DOMAIN r : r[j] = Dot => (j > i + 1 \/ j < i - 1) THEN Err ELSE Open
     ELSE IF \E i \in DOMAIN segs : segs[i] = <<>> \/ segs[i][1] \in Digit THEN Open   \* empty names, or ones like numbers, around dots
     ELSE Ok(Chain(Sym(segs[1]), Tail(segs)), e)

(* ---------------------------------------------------------------- strings, characters, bytes *)
RECURSIVE Str(_, _, _), Hex(_, _, _)
Str(x, p, acc) ==
  IF p > Len(x) THEN Err
  ELSE IF x[p] = 34 THEN Ok(<<"s", acc>>, p + 1)
  ELSE IF x[p] = 92 THEN IF At(x, p + 1) \in DOMAIN Escapes THEN Str(x, p + 2, Append(acc, Escapes[x[p + 1]])) ELSE Err
  ELSE Str(x, p + 1, Append(acc, x[p]))
HexD(c) == IF c \in Digit THEN c - 48 ELSE IF c \in 65..70 THEN c - 55 ELSE 99
Hex(x, p, acc) ==
  IF p > Len(x) \/ Delim(At(x, p)) THEN Ok(<<"u", acc>>, p)
  ELSE IF HexD(x[p]) = 99 \/ At(x, p + 1) = -1 \/ HexD(At(x, p + 1)) = 99 THEN Err
  ELSE Hex(x, p + 2, Append(acc, HexD(x[p]) * 16 + HexD(x[p + 1])))
Char(x, p) ==           \* p at the character after the backslash
  LET e == RunEnd(x, p + 1)  r == SubSeq(x, p, e - 1) IN
  IF p > Len(x) THEN Err
  ELSE IF x[p] \in WS \/ x[p] > 126 \/ x[p] < 32 \/ x[p] = Colon THEN Open  \* blanks and bytes outside ASCII
  ELSE IF e = p + 1 THEN Ok(<<"i", FromSmall(x[p])>>, e)
  ELSE IF r \in DOMAIN CharNames THEN Ok(<<"i", FromSmall(CharNames[r])>>, e)
  ELSE Open

(* ---------------------------------------------------------------- values *)
IsName(v) == v[1] \in {"y", "k"}
TreeOf(s) == LET n == Len(s) IN
  IF n % 2 = 1 THEN [t |-> "any"]                                   \* a key without a value
  ELSE IF \E i \in DOMAIN s : i % 2 = 1 /\ ~IsName(s[i]) THEN [t |-> IF \E i \in DOMAIN s : i % 2 = 1 /\ s[i] = Nil THEN "any" ELSE "err"]
  ELSE [t |-> "ok", v |-> <<"t", [i \in 1..n \div 2 |-> <<s[2 * i - 1][2], s[2 * i]>>]>>]

(* RDots: what to do with a dot: only lists have tails *)
LoneDot(x, p) == x[p] = Dot /\ (p + 1 > Len(x) \/ Delim(At(x, p + 1)))
RECURSIVE Value(_, _), Datum(_, _), Elems(_, _, _, _), Close(_, _)
Datum(x, p0) ==         \* the next value, whitespace and comments skipped: what a prefix applies to
  LET p == SkipWs(x, p0)
      r == Value(x, p)
  IN IF p > Len(x) \/ x[p] \in Closing \/ LoneDot(x, p) THEN Err
     ELSE IF x[p] = 59 THEN Datum(x, SkipLine(x, p))
     ELSE IF r.t = "com" THEN Datum(x, r.p)
     ELSE r
Close(x, p0) ==         \* position after the closing parenthesis, nothing but comments in front of it
  LET p == SkipWs(x, p0)
      r == Value(x, p)
  IN IF p > Len(x) THEN Err
     ELSE IF x[p] = 41 THEN [t |-> "ok", p |-> p + 1]
     ELSE IF x[p] \in Closing THEN Err
     ELSE IF x[p] = 59 THEN Close(x, SkipLine(x, p))
     ELSE IF r.t = "com" THEN Close(x, r.p)
     ELSE IF r.t = "any" THEN Open
     ELSE Err
Elems(x, p0, term, acc) ==      \* term: the closing character, 0 at the top
  LET p == SkipWs(x, p0)
      c == At(x, p)
      r == Value(x, p)
      d == Datum(x, p + 1)
      e == Close(x, d.p)
  IN IF p > Len(x) THEN IF term = 0 THEN [t |-> "ok", v |-> acc, p |-> p, tail |-> Nil] ELSE Err
     ELSE IF c = 59 THEN Elems(x, SkipLine(x, p), term, acc)
     ELSE IF c = term THEN [t |-> "ok", v |-> acc, p |-> p + 1, tail |-> Nil]
     ELSE IF c \in Closing THEN Err
     ELSE IF LoneDot(x, p)
          THEN IF term # 41 THEN IF term = 0 \/ acc # <<>> THEN Open ELSE Err      \* dots outside of lists
               ELSE IF acc = <<>> THEN Err
               ELSE IF d.t # "ok" THEN d
               ELSE IF e.t # "ok" THEN e
               ELSE [t |-> "ok", v |-> acc, p |-> e.p, tail |-> d.v]
     ELSE IF r.t = "com" THEN Elems(x, r.p, term, acc)
     ELSE IF r.t = "one" THEN IF term = 0 /\ acc = <<>> /\ SkipWs(x, r.p) > Len(x) THEN r ELSE Open
     ELSE IF r.t # "ok" THEN r
     ELSE Elems(x, r.p, term, Append(acc, r.v))
Prefix(x, p, n) == LET r == Datum(x, p) IN IF r.t = "ok" THEN Ok(List(<<Sym(n), r.v>>), r.p) ELSE IF r.t = "one" THEN Open ELSE r
Seq0(s) == IF s = <<>> THEN <<Nil>> ELSE s
Value(x, p) ==
  LET c == At(x, p)
      d == At(x, p + 1)
      In(q, term) == Elems(x, q, term, <<>>)
      run == SubSeq(x, p, RunEnd(x, p) - 1)
      rest == SubSeq(x, p + 2, RunEnd(x, p + 2) - 1)
      Num(base, max) == Number(rest, base, max, RunEnd(x, p + 2))
  IN CASE c = -1 -> Err
       [] c = 40 -> LET r == In(p + 1, 41) IN IF r.t = "ok" THEN Ok(<<"l", Seq0(r.v), r.tail>>, r.p) ELSE r     \* () is (#nil)
       [] c = 91 -> LET r == In(p + 1, 93) IN IF r.t = "ok" THEN Ok(List(<<Sym(NArr)>> \o r.v), r.p) ELSE r
       [] c = 123 -> LET r == In(p + 1, 125) IN IF r.t = "ok" THEN Ok(List(<<Sym(NTree)>> \o Seq0(r.v)), r.p) ELSE r
       [] c = 126 -> IF d = 64 THEN Prefix(x, p + 2, NSpl) ELSE Prefix(x, p + 1, NUnq)
       [] c = 96 -> Prefix(x, p + 1, NQuasi)
       [] c = 39 -> Prefix(x, p + 1, NQuote)
       [] c = 34 -> Str(x, p + 1, <<>>)
       [] c = 35 ->
            (CASE d = 59 -> LET r == Datum(x, p + 2) IN IF r.t = "ok" THEN Comment(r.p) ELSE r
               [] d = 124 -> LET e == BlockEnd(x, p + 2, 1) IN IF e = 0 THEN Err ELSE Comment(e)
               [] d = 33 -> Comment(SkipLine(x, p + 2))
               [] d = 92 -> Char(x, p + 2)
               [] d = 109 -> Hex(x, p + 2, <<>>)
               [] d = 120 -> Num(16, 16)
               [] d = 100 -> Num(10, 18)
               [] d = 111 -> Num(8, 21)
               [] d = 98 -> Num(2, 64)
               [] d = 110 -> IF \E i \in DOMAIN rest : rest[i] = Colon THEN Open ELSE Ok(Nil, RunEnd(x, p + 2))
               [] d = 116 -> IF rest = <<>> THEN Ok(<<"b", 1>>, p + 2) ELSE Open                                 \* #true and the like
               [] d = 102 -> IF rest = <<>> THEN Ok(<<"b", 0>>, p + 2) ELSE Open
               [] d = 35 -> IF At(x, p + 2) # 40 THEN Err ELSE
                            LET r == In(p + 3, 41) IN IF r.t # "ok" THEN r ELSE IF r.tail # Nil THEN Open ELSE Ok(<<"a", r.v>>, r.p)
               [] d = 64 -> IF At(x, p + 2) # 40 THEN Err ELSE
                            LET r == In(p + 3, 41)  w == TreeOf(r.v) IN IF r.t # "ok" THEN r ELSE IF r.tail # Nil THEN Open ELSE IF w.t = "ok" THEN Ok(w.v, r.p) ELSE w
               [] OTHER -> Err)
       [] OTHER -> IF c \in Digit \/ (c = 45 /\ d \in Digit) THEN Number(run, 10, 18, RunEnd(x, p)) ELSE Symbol(run, RunEnd(x, p))
(* The elements of a text (none at all is read as one nil, like the empty list) *)
Read(x) == LET r == Elems(x, 1, 0, <<>>) IN IF r.t = "ok" THEN [t |-> "ok", v |-> Seq0(r.v)] ELSE [t |-> r.t]
===============================================================================
