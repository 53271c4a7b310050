------------------------------- MODULE Int64 --------------------------------
(* 64-bit two's complement integers as sequences of eight bytes, least        *)
(* significant first: TLC's own integers have only 32 bits.                   *)
EXTENDS Integers, Sequences, SequencesExt

B8 == 1..8
Zero == [i \in B8 |-> 0]
One == [Zero EXCEPT ![1] = 1]
Byte(a, i) == IF i \in B8 THEN a[i] ELSE 0

AddC(a, b, c) == FoldLeft(LAMBDA st, i : LET s == a[i] + b[i] + st.c IN [r |-> Append(st.r, s % 256), c |-> s \div 256], [r |-> <<>>, c |-> c], <<1,2,3,4,5,6,7,8>>)
Add(a, b) == AddC(a, b, 0).r
Not(a) == [i \in B8 |-> 255 - a[i]]
Neg(a) == AddC(Not(a), Zero, 1).r
Sub(a, b) == AddC(a, Not(b), 1).r
GeU(a, b) == AddC(a, Not(b), 1).c = 1          \* unsigned a >= b

Mul(a, b) ==
  FoldLeft(LAMBDA st, k : LET s == st.c + FoldLeft(LAMBDA x, i : x + a[i] * b[k + 1 - i], 0, [i \in 1..k |-> i])
                          IN [r |-> Append(st.r, s % 256), c |-> s \div 256], [r |-> <<>>, c |-> 0], <<1,2,3,4,5,6,7,8>>).r

IsNeg(a) == a[8] >= 128
IsZero(a) == a = Zero
Mag(a) == IF IsNeg(a) THEN Neg(a) ELSE a      \* as an unsigned number
SignExt(n) == FoldLeft(LAMBDA st, i : [r |-> Append(st.r, st.n % 256), n |-> st.n \div 256], [r |-> <<>>, n |-> n], <<1,2,3,4,5,6,7,8>>).r
FromSmall(n) == SignExt(n)                     \* % and \div are floored, so this is two's complement
Min64 == [i \in B8 |-> IF i = 8 THEN 128 ELSE 0]
Max64 == Not(Min64)

P2(n) == <<1, 2, 4, 8, 16, 32, 64, 128, 256>>[n + 1]
Bit(a, n) == (a[(n \div 8) + 1] \div P2(n % 8)) % 2
(* shift amounts are taken modulo 64; right shifts keep the sign *)
Amount(b) == b[1] % 64
Shl(a, n) == LET q == n \div 8  r == n % 8 IN
  [i \in B8 |-> ((Byte(a, i - q) * P2(r)) % 256) + (Byte(a, i - q - 1) \div P2(8 - r))]
Sar(a, n) == LET q == n \div 8  r == n % 8  f == IF IsNeg(a) THEN 255 ELSE 0
                 X(i) == IF i \in B8 THEN a[i] ELSE f IN
  [i \in B8 |-> (X(i + q) \div P2(r)) + ((X(i + q + 1) * P2(8 - r)) % 256)]

(* unsigned long division, bit by bit *)
DivU(a, b) ==
  FoldLeft(LAMBDA st, j : LET bit == Bit(a, 64 - j)
                              r2 == AddC(st.r, st.r, bit).r
                              over == st.r[8] >= 128
                              ge == over \/ GeU(r2, b) IN
                          [q |-> AddC(st.q, st.q, IF ge THEN 1 ELSE 0).r, r |-> IF ge THEN Sub(r2, b) ELSE r2],
           [q |-> Zero, r |-> Zero], [j \in 1..64 |-> j])
Quo(a, b) == LET q == DivU(Mag(a), Mag(b)).q IN IF IsNeg(a) # IsNeg(b) THEN Neg(q) ELSE q   \* truncated
Rem(a, b) == LET r == DivU(Mag(a), Mag(b)).r IN IF IsNeg(a) THEN Neg(r) ELSE r              \* sign of the dividend

Bitwise(a, b, Op(_, _)) == [i \in B8 |->
   FoldLeft(LAMBDA x, k : x + P2(k - 1) * Op((a[i] \div P2(k - 1)) % 2, (b[i] \div P2(k - 1)) % 2), 0, <<1,2,3,4,5,6,7,8>>)]
And(a, b) == LET F(x, y) == x * y IN Bitwise(a, b, F)
Or(a, b) == LET F(x, y) == x + y - x * y IN Bitwise(a, b, F)
Xor(a, b) == LET F(x, y) == (x + y) % 2 IN Bitwise(a, b, F)
PopCount(a) == FoldLeft(LAMBDA x, n : x + Bit(a, n - 1), 0, [n \in 1..64 |-> n])

Lt(a, b) == IF IsNeg(a) # IsNeg(b) THEN IsNeg(a) ELSE ~GeU(a, b)
Cmp(a, b) == IF a = b THEN 0 ELSE IF Lt(a, b) THEN -1 ELSE 1

RECURSIVE PowN(_, _)
PowN(a, n) == IF n = 0 THEN One ELSE LET h == PowN(Mul(a, a), n \div 2) IN IF n % 2 = 1 THEN Mul(h, a) ELSE h
=============================================================================
