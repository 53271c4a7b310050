-------------------------------- MODULE ImgBig ---------------------------------
(* Images of big values.  A value of a family with n parts shows the number    *)
(* See(family, n, i) at its part i; loading what was saved, any number of      *)
(* times, changes neither the number of parts nor what any part shows.  TLC    *)
(* enumerates families, sizes around the limits of the encodings (lengths and  *)
(* offsets of one, two and three bytes, tables that grow) and the number of    *)
(* rounds; small values are also given completely, big ones at some parts, the *)
(* whole being compared with the original.                                     *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS MAXPARTS
VARIABLES st

Mod(a, b) == a % b
Mix(i) == Mod(i, 30000) * 65537 - 1000
Byte(i) == Mod(i * 7, 256)
See(f, n, i) ==
  CASE f \in {"list", "array", "tree", "array64", "keys"} -> Mix(i)
    [] f \in {"string", "buffer", "fixed"} -> Byte(i)
    [] f \in {"words", "floats"} -> Mod(i, 30000)
    [] f = "pairs" -> i + 3 * (n - i)
    [] f \in {"shared", "texts", "symbols", "oneview"} -> 1
    [] f \in {"closures", "code"} -> i + 7
    [] f \in {"deeplist", "deeparray", "deeptree", "deepclosure"} -> n - i
Limit(f) == CASE f \in {"list", "array", "string", "buffer", "fixed"} -> 70000
              [] f \in {"words", "floats", "array64"} -> 20000
              [] f = "shared" -> 20000 [] f \in {"pairs"} -> 9000
              [] f \in {"tree", "keys", "symbols", "closures", "texts", "oneview"} -> 3000
              [] f \in {"deeplist", "deeparray", "deeptree", "deepclosure"} -> 3000
              [] f = "code" -> 600
Families == {"list", "array", "array64", "tree", "keys", "string", "buffer", "fixed", "words", "floats", "pairs", "shared", "texts", "symbols", "oneview",
             "closures", "code", "deeplist", "deeparray", "deeptree", "deepclosure"}
Sizes == {0, 1, 2, 3, 7, 30, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 600, 1000, 3000, 4096, 9000, 16384, 20000, 32767, 32768, 65535, 65536, 65537, 70000}
Deep == {"deeplist", "deeparray", "deeptree", "deepclosure", "code"}
Rounds(n) == IF n <= 257 THEN {1, 2, 5} ELSE {1, 2}

vars == <<st>>
Init == st = [f |-> ""]
Next == st.f = "" /\ \E f \in Families : \E n \in {m \in Sizes : m <= Limit(f) /\ m <= MAXPARTS /\ (f \in Deep => m > 0)} : \E r \in Rounds(n) :
          st' = [f |-> f, n |-> n, r |-> r]
(* as a check of the model itself: the parts of a loaded value are those of the saved one, r times over *)
RECURSIVE Loaded(_, _)
Loaded(v, r) == IF r = 0 THEN v ELSE Loaded([i \in 1..Len(v) |-> v[i]], r - 1)
Law == (st.f # "" /\ st.n <= 65) => LET v == [i \in 1..st.n |-> See(st.f, st.n, i - 1)] IN Loaded(v, st.r) = v
SpotList(s) == LET is == SelectSeq(<<0, 1, 2, 31, 32, 127, 128, 255, 256, s.n \div 2, s.n - 2, s.n - 1>>, LAMBDA i : i >= 0 /\ i < s.n)
               IN [k \in 1..Len(is) |-> <<is[k], See(s.f, s.n, is[k])>>]
Emit == (st.f # "") => PrintT("@" \o ToJson([f |-> st.f, n |-> st.n, r |-> st.r, spots |-> SpotList(st)]))
===============================================================================
