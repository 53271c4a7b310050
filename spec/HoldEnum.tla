------------------------------- MODULE HoldEnum --------------------------------
(* Nested pending computations, each the only holder of one object, with a     *)
(* collection (and reuse of all cells freed by it) in the innermost one.       *)
(* The program is a stack of frames; entering a frame creates its object,      *)
(* leaving it yields the pair of what the object shows then and of what the    *)
(* frame inside yielded.  Since nothing can change an object while it is held, *)
(* it shows what it showed when it was created: collections are invisible.     *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC, Json
CONSTANTS DEPTH, PAIRS
VARIABLES st

Hows == {"let", "def", "arg", "arg2", "rest", "apply", "array", "tree", "cons", "list", "method", "handler", "thrown", "capture", "set", "env", "quote", "fnlit", "doseq", "map",
         "amap", "reduce", "classm", "proto", "meta", "ret", "or", "if", "callee", "mapclo", "prog", "rethrow", "treekey", "while", "setarg", "case", "deepenv", "curry"}
Types == {"pair", "array", "tree", "string", "buffer", "view", "clo", "env", "symbol", "keyword", "code", "macro", "nested", "fview", "empty", "rope", "keys", "wide", "native"}
Leaves == {"gc", "churn", "throw", "deep", "compile", "big", "loop", "symbols", "flood"}

(* one type for a frame: all of them at the first level, then going round *)
TypeSeq == <<"pair", "array", "tree", "string", "buffer", "view", "clo", "env", "symbol", "keyword", "code", "macro", "nested", "fview", "empty", "rope", "keys", "wide", "native">>
HowSeq == SetToSeq(Hows)
Index(s, x) == CHOOSE i \in DOMAIN s : s[i] = x
Round(h, i, d) == TypeSeq[((i * 5 + Index(HowSeq, h) * 3 + d) % Len(TypeSeq)) + 1]

Init == st \in {[fr |-> <<<<h, t>>>>, leaf |-> "", v |-> <<>>] : h \in Hows, t \in Types}
Push == /\ Len(st.fr) < DEPTH
        /\ \E h \in Hows : st' = [st EXCEPT !.fr = Append(@, <<h, Round(h, Index(TypeSeq, st.fr[1][2]) + Index(HowSeq, st.fr[1][1]), Len(st.fr))>>)]
Touch == \E l \in Leaves : st' = [st EXCEPT !.leaf = l, !.v = <<"i", 4711>>]
Next == st.leaf = "" /\ ((PAIRS /\ Push) \/ ((Len(st.fr) = DEPTH) = TRUE /\ Touch))
SimInit == st = [fr |-> <<>>, leaf |-> "", v |-> <<>>]
SimNext == IF st.leaf # "" THEN st' = [fr |-> <<>>, leaf |-> "", v |-> <<>>]
           ELSE IF Len(st.fr) < DEPTH THEN \E h \in {RandomElement(Hows)}, t \in {RandomElement(Types)} : st' = [st EXCEPT !.fr = Append(@, <<h, t>>)]
           ELSE \E l \in {RandomElement(Leaves)} : st' = [st EXCEPT !.leaf = l, !.v = <<"i", 4711>>]

(* what the object of type t created as number n shows *)
I(n) == <<"i", n>>
S(x) == <<"s", x>>
K(x) == <<"k", x>>
L(s) == <<"l", s>>
A(s) == <<"a", s>>
Num(n) == ToString(n)
Show(t, n) ==
  CASE t = "pair" -> L(<<I(n), L(<<S("p" \o Num(n)), K("q")>>)>>)
    [] t = "array" -> A(<<I(n), A(<<S("a" \o Num(n))>>), <<"n">>>>)
    [] t = "tree" -> <<"t", <<<<"vpa", I(n)>>, <<"vpb", L(<<I(n), I(n)>>)>>>>>>
    [] t = "string" -> S("str-" \o Num(n))
    [] t = "buffer" -> <<"u", <<n, 0, 0, 0>>>>
    [] t = "view" -> <<"v", <<I(n), I(0), I(0), I(0)>>>>
    [] t = "fview" -> <<"v", <<<<"f", n, 2>>>>>>
    [] t = "clo" -> L(<<I(n), S("c" \o Num(n))>>)
    [] t = "env" -> L(<<I(n), S("e" \o Num(n))>>)
    [] t = "symbol" -> <<"y", "vp--s" \o Num(n)>>
    [] t = "keyword" -> K("vp--k" \o Num(n))
    [] t = "code" -> L(<<I(n), S("code" \o Num(n))>>)
    [] t = "macro" -> L(<<I(n), <<"y", "vp--m" \o Num(n)>>>>)
    [] t = "nested" -> L(<<A(<<<<"t", <<<<"vpa", L(<<I(n), A(<<S("n" \o Num(n))>>)>>)>>>>>>>>)>>)
    [] t = "empty" -> A(<<A(<<>>), S(""), <<"t", <<>>>>, <<"u", <<>>>>>>)
    [] t = "wide" -> L(<<I(70000), L(<<S("w" \o Num(n)), S("x" \o Num(n)), S("y" \o Num(n)), I(7)>>)>>)
    [] t = "native" -> <<"b", 1>>
    [] t = "rope" -> L([i \in 1..40 |-> I(n + i)])
    [] t = "keys" -> L(<<I(2), <<"t", <<<<"vp--x" \o Num(n), I(1)>>, <<"vp--y" \o Num(n), I(2)>>>>>>>>)
RECURSIVE Value(_, _)
Value(fr, v) == IF fr = <<>> THEN v ELSE LET k == Len(fr) IN Value(SubSeq(fr, 1, k - 1), L(<<Show(fr[k][2], k), v>>))
Emit == st.leaf # "" => PrintT("@" \o ToJson([fr |-> st.fr, leaf |-> st.leaf, v |-> Value(st.fr, st.v)]))
===============================================================================
