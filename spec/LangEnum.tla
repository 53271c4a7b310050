------------------------------- MODULE LangEnum -------------------------------
(* One state per program: contexts i, j (and k) nested around leaf l.         *)
EXTENDS LangCtx
CONSTANTS MODE, DEPTH
VARIABLES st

Ctx(d, c, h) == IF c <= NP THEN Plain(d, h)[c] ELSE Throwing(d, h)[c - NP]
NC == IF MODE = "plain" THEN NP ELSE NP + NT
Leaf == IF MODE = "plain" THEN PlainLeaf ELSE ThrowLeaf
Hole(s) == LET H[i \in 1..(Len(s.c) + 1)] == IF i > Len(s.c) THEN Leaf[s.l] ELSE Ctx(i, s.c[i], H[i + 1]) IN H[1]
Prog(s) == Whole(Hole(s))

(* exception mode: at least one context is about exceptions *)
Wanted(s) == MODE = "plain" \/ \E i \in DOMAIN s.c : s.c[i] > NP
Init == st \in {[c |-> <<i>>, l |-> 0] : i \in 1..NC}
Next == /\ st.l = 0
        /\ \/ Len(st.c) < DEPTH /\ \E j \in 1..NC : st' = [st EXCEPT !.c = Append(@, j)]
           \/ \E l \in 1..Len(Leaf) : Wanted(st) /\ st' = [st EXCEPT !.l = l]
(* random nestings, for simulation: a program per step *)
SimInit == st = [c |-> <<1>>, l |-> 1]
SimNext == LET n == RandomElement(3..DEPTH) IN
           st' = [c |-> [i \in 1..n |-> RandomElement(1..NC)], l |-> RandomElement(1..Len(Leaf))]
Emit == st.l > 0 /\ Wanted(st) => LET p == Prog(st)  r == Run(p) IN r.o = "f" \/ PrintT("@" \o ToJson([id |-> st, p |-> p, r |-> r]))
===============================================================================
