------------------------------ MODULE PrintDef --------------------------------
(* The text of a value, written (to be read again) or displayed.               *)
EXTENDS Reader

(* decimal digits of a number *)
RECURSIVE Dec(_)
Div10(a) == FoldRight(LAMBDA d, st : LET x == st.c * 256 + d IN [q |-> <<x \div 10>> \o st.q, c |-> x - 10 * (x \div 10)], a, [q |-> <<>>, c |-> 0])
Dec(a) == IF IsZero(a) THEN <<>> ELSE LET d == Div10(a) IN Append(Dec(d.q), 48 + d.c)
DecI(a) == IF IsZero(a) THEN <<48>> ELSE IF IsNeg(a) THEN <<45>> \o Dec(Neg(a)) ELSE Dec(a)
Chr(d) == 48 + d
RECURSIVE TrimZeros(_)
TrimZeros(ds) == IF Len(ds) > 1 /\ ds[Len(ds)] = 0 THEN TrimZeros(SubSeq(ds, 1, Len(ds) - 1)) ELSE ds
EscOf == [c \in {0, 7, 8, 9, 10, 11, 12, 13, 27, 34, 92} |-> CHOOSE e \in DOMAIN Escapes : Escapes[e] = c]
HexC(n) == IF n < 10 THEN 48 + n ELSE 55 + n
MapC(s, Op(_)) == FlattenSeq([i \in DOMAIN s |-> Op(s[i])])
EscChar(c) == IF c \in DOMAIN EscOf THEN <<92, EscOf[c]>> ELSE <<c>>
HexByte(c) == <<HexC(c \div 16), HexC(c - 16 * (c \div 16))>>

RECURSIVE Write(_, _)
(* raw: as it is displayed, strings without quotes, nil as nothing *)
WriteItems(s, raw) == FlattenSeq([i \in DOMAIN s |-> (IF i > 1 THEN <<32>> ELSE <<>>) \o Write(s[i], raw)])
IsQuote(x) == x[1] = "l" /\ Len(x[2]) = 2 /\ x[2][1] = Sym(NQuote) /\ x[3] = Nil
Write(x, raw) ==
  CASE x[1] = "n" -> IF raw THEN <<>> ELSE <<35, 110, 105, 108>>
    [] x[1] = "b" -> IF x[2] = 1 THEN <<35, 116>> ELSE <<35, 102>>
    [] x[1] = "i" -> DecI(x[2])
    [] x[1] = "f" -> (IF x[2] = 1 THEN <<45>> ELSE <<>>) \o [i \in DOMAIN x[3] |-> Chr(x[3][i])] \o <<46>> \o LET f == TrimZeros(x[4]) IN [i \in DOMAIN f |-> Chr(f[i])]
    [] x[1] = "s" -> IF raw THEN x[2] ELSE <<34>> \o MapC(x[2], EscChar) \o <<34>>
    [] x[1] = "u" -> <<35, 109>> \o MapC(x[2], HexByte)
    [] x[1] = "y" -> x[2]
    [] x[1] = "k" -> <<58>> \o x[2]
    [] x[1] = "a" -> <<35, 35, 40>> \o WriteItems(x[2], raw) \o <<41>>
    [] x[1] = "t" -> <<35, 64, 40>> \o FlattenSeq([i \in DOMAIN x[2] |-> (IF i > 1 THEN <<32>> ELSE <<>>) \o x[2][i][1] \o <<58, 32>> \o Write(x[2][i][2], raw)]) \o <<41>>
    [] IsQuote(x) -> <<39>> \o Write(x[2][2], raw)
    [] OTHER -> <<40>> \o WriteItems(x[2], raw) \o (IF x[3] = Nil THEN <<>> ELSE <<32, 46, 32>> \o Write(x[3], raw)) \o <<41>>

===============================================================================
