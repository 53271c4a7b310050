-------------------------------- MODULE Fmt ---------------------------------
(***************************************************************************)
(* Formatted text: what (fmt "..." args ...) gives for a format string of  *)
(* bytes and values as Reader.tla builds them.  <<"e">> is an error,       *)
(* <<"skip">> is where nothing is prescribed.                              *)
(***************************************************************************)
EXTENDS Strings
P == INSTANCE PrintDef

\* An integer in base 2^k
Group(a, k, g) == LET b(j) == IF g * k + j < 64 THEN P!Bit(a, g * k + j) * P!P2(j) ELSE 0
                  IN  b(0) + (IF k > 1 THEN b(1) ELSE 0) + (IF k > 2 THEN b(2) ELSE 0) + (IF k > 3 THEN b(3) ELSE 0)
BaseText(a, k) ==
    LET n == CeilDiv(64, k)
        d == [i \in 1 .. n |-> Group(a, k, n - i)]
        S == {i \in 1 .. n : d[i] # 0}
    IN  IF S = {} THEN <<48>> ELSE [i \in 1 .. (n - SetMin(S) + 1) |-> P!HexC(d[i + SetMin(S) - 1])]

\* Literal text and placeholders
Pieces(s) ==
    LET step(st, c) ==
          IF st.err THEN st
          ELSE IF c = 123 THEN (IF st.in THEN [st EXCEPT !.err = TRUE] ELSE [st EXCEPT !.in = TRUE, !.cur = <<>>, !.ps = Append(@, <<FALSE, st.cur>>)])
          ELSE IF c = 125 THEN (IF st.in THEN [st EXCEPT !.in = FALSE, !.cur = <<>>, !.ps = Append(@, <<TRUE, st.cur>>)] ELSE [st EXCEPT !.err = TRUE])
          ELSE [st EXCEPT !.cur = Append(@, c)]
        r == FoldLeft(step, [cur |-> <<>>, in |-> FALSE, ps |-> <<>>, err |-> FALSE], s)
    IN  [ps |-> Append(r.ps, <<FALSE, r.cur>>), err |-> r.err \/ r.in]

IsDigit(c) == c >= 48 /\ c <= 57
IsLetter(c) == c >= 97 /\ c <= 122
RECURSIVE Num(_, _)
Num(t, acc) == IF t = <<>> THEN acc ELSE Num(Tail(t), acc * 10 + t[1] - 48)

NoOpts == [al |-> ">", w |-> -1, zero |-> FALSE, prec |-> -1, base |-> " ", dbg |-> FALSE, err |-> FALSE]
\* The options of a placeholder, from its end to its start
RECURSIVE Opts(_, _)
Opts(o, t) ==
    IF t = <<>> \/ o.err THEN o
    ELSE LET n == Len(t)
             c == t[n]
             rest == SubSeq(t, 1, n - 1)
             S == {i \in 1 .. n : ~IsDigit(t[i])}
             k == IF S = {} THEN 0 ELSE SetMax(S)
         IN  IF IsDigit(c) THEN Opts([o EXCEPT !.w = Num(SubSeq(t, k + 1, n), 0), !.zero = @ \/ t[k + 1] = 48], SubSeq(t, 1, k))
             ELSE IF c = 46 THEN Opts([o EXCEPT !.prec = o.w, !.w = -1, !.zero = FALSE], rest)
             ELSE IF c = 63 THEN Opts([o EXCEPT !.dbg = TRUE], rest)
             ELSE IF c = 60 THEN Opts([o EXCEPT !.al = "<"], rest)
             ELSE IF c = 94 THEN Opts([o EXCEPT !.al = "^"], rest)
             ELSE IF c = 62 THEN Opts([o EXCEPT !.al = ">"], rest)
             ELSE IF c = 120 THEN Opts([o EXCEPT !.base = "x"], rest)
             ELSE IF c = 88 THEN Opts([o EXCEPT !.base = "X"], rest)
             ELSE IF c = 100 THEN Opts([o EXCEPT !.base = "d"], rest)
             ELSE IF c = 111 THEN Opts([o EXCEPT !.base = "o"], rest)
             ELSE IF c = 98 THEN Opts([o EXCEPT !.base = "b"], rest)
             ELSE [o EXCEPT !.err = TRUE]

Number(v, base) ==
    IF base = "d" /\ v[1] \in {"i", "f"} THEN <<"s", P!Write(v, TRUE)>>
    ELSE IF v[1] = "s" /\ base # "d" THEN <<"e">>
    ELSE IF v[1] # "i" THEN <<"skip">>
    ELSE IF P!IsNeg(v[2]) THEN <<"e">>
    ELSE <<"s", CASE base = "b" -> BaseText(v[2], 1) [] base = "o" -> BaseText(v[2], 3) [] base = "X" -> BaseText(v[2], 4)
                  [] base = "x" -> LowerCase(BaseText(v[2], 4))>>
Prefix(base) == CASE base = "b" -> <<35, 98>> [] base = "o" -> <<35, 111>> [] base = "d" -> <<35, 100>> [] OTHER -> <<35, 120>>
Placed(o, v) ==
    LET raw == IF o.base # " " THEN Number(v, o.base)
               ELSE IF o.dbg THEN (IF o.w >= 0 \/ o.prec >= 0 THEN <<"skip">> ELSE <<"s", P!Write(v, FALSE)>>)
               ELSE <<"s", P!Write(v, TRUE)>>
        rounded == IF o.prec >= 0 THEN RoundText(raw[2], o.prec) ELSE raw[2]
        w == IF o.dbg THEN o.w - 2 ELSE o.w
        pad == IF o.zero THEN <<48>> ELSE <<32>>
        padded == IF o.w < 0 THEN rounded
                  ELSE CASE o.al = ">" -> PadStart(rounded, w, pad) [] o.al = "<" -> PadEnd(rounded, w, pad) [] o.al = "^" -> PadMiddle(rounded, w, pad)
    IN  IF o.err THEN <<"e">> ELSE IF raw[1] # "s" THEN raw ELSE <<"s", (IF o.dbg /\ o.base # " " THEN Prefix(o.base) ELSE <<>>) \o padded>>

\* vars: the variables in scope, from names to values
Format(s, args, vars) ==
    LET b == Pieces(s)
        ps == b.ps
        n == Len(ps)
        parts == [i \in 1 .. n |-> IF ps[i][1] THEN Split(ps[i][2], <<58>>) ELSE <<<<>>>>]
        holes == {i \in 1 .. n : ps[i][1]}
        name(i) == parts[i][1]
        spec(i) == IF Len(parts[i]) > 1 THEN parts[i][2] ELSE <<>>
        numbered(i) == name(i) # <<>> /\ \A j \in DOMAIN name(i) : IsDigit(name(i)[j])
        named(i) == name(i) # <<>> /\ \A j \in DOMAIN name(i) : IsLetter(name(i)[j])
        \* placeholders without a name count from the last argument
        index(i) == IF numbered(i) THEN Num(name(i), 0) ELSE Len(args) - Cardinality({j \in holes : j >= i /\ name(j) = <<>>})
        odd == \E i \in holes : Len(parts[i]) > 2 \/ ~(name(i) = <<>> \/ numbered(i) \/ named(i))
        isarg(i) == i \in holes /\ ~named(i)
        bad == (\E i \in 1 .. n : isarg(i) /\ (index(i) < 0 \/ index(i) >= Len(args)))
               \/ (\E i \in holes : named(i) /\ name(i) \notin DOMAIN vars)
               \/ (\E k \in 1 .. Len(args) : \A i \in 1 .. n : ~(isarg(i) /\ index(i) = k - 1))
        text(i) == IF ~ps[i][1] THEN <<"s", ps[i][2]>>
                   ELSE Placed(Opts(NoOpts, spec(i)), IF named(i) THEN vars[name(i)] ELSE args[index(i) + 1])
    IN  IF b.err THEN <<"e">>
        ELSE IF odd THEN <<"skip">>
        ELSE IF bad THEN <<"e">>
        ELSE LET ts == [i \in 1 .. n |-> text(i)]
             IN  IF \E i \in 1 .. n : ts[i] = <<"skip">> THEN <<"skip">>
                 ELSE IF \E i \in 1 .. n : ts[i] = <<"e">> THEN <<"e">>
                 ELSE <<"s", Concat([i \in 1 .. n |-> ts[i][2]])>>
=============================================================================
