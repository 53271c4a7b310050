-------------------------------- MODULE Modules --------------------------------
(* Modules.  A program is a tree of files, each with a sequence of statements: *)
(* exporting names, importing from other files in one of several forms and     *)
(* under one of several spellings of the path, looking at a name, or failing.  *)
(* Run executes the main file: a file is evaluated when it is first asked for, *)
(* and the same module is given to everybody who asks for it later; one that   *)
(* is missing, broken, failed or still being loaded is an error for whoever    *)
(* asks.  An import binds, in the importing module only, exactly the names     *)
(* asked for (or all exported ones, plain or with the module's name in front). *)
(* Every module has a private p and q of its own; the exported functions inc   *)
(* and get work on the p of their own module.                                  *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS NM, LEN
VARIABLES st

Mod(a, b) == a % b
(* ---------------------------------------------------------------- files --- *)
Dirs == << <<>>, <<"d">>, <<"d", "e">>, <<"f">>, <<>>, <<"d">> >>
File(m) == Append(Dirs[m], "m" \o ToString(m))
Missing == 99
(* what a spelling means: "." and "" stay, ".." goes up *)
RECURSIVE Norm(_, _)
Norm(at, segs) ==
  IF segs = <<>> THEN at
  ELSE LET s == Head(segs) IN
       IF s \in {".", ""} THEN Norm(at, Tail(segs))
       ELSE IF s = ".." THEN (IF at = <<>> THEN <<"outside">> ELSE Norm(SubSeq(at, 1, Len(at) - 1), Tail(segs)))
       ELSE Norm(Append(at, s), Tail(segs))
Target(path) == IF \E m \in 1..NM : File(m) = path THEN CHOOSE m \in 1..NM : File(m) = path ELSE Missing
Ups(n) == [i \in 1..n |-> ".."]
Direct(from, to) == Ups(Len(Dirs[from])) \o to
(* spellings of the same path *)
Spell(from, to, k) ==
  LET p == Direct(from, to) IN
  CASE k = 0 -> p
    [] k = 1 -> <<".">> \o p
    [] k = 2 -> <<"zz", "..">> \o p
    [] k = 3 -> <<"zz", "yy", "..", "..">> \o p
    [] k = 4 -> SubSeq(p, 1, Len(p) - 1) \o <<"", p[Len(p)]>>
    [] k = 5 -> SubSeq(p, 1, Len(p) - 1) \o <<".", ".", p[Len(p)]>>
    [] k = 6 -> Ups(Len(Dirs[from])) \o <<"d", "e", "..", "..">> \o to
    [] k = 7 -> Ups(Len(Dirs[from])) \o <<"f", "", "..">> \o to
    [] k = 8 -> <<"zz", ".", "yy", "..", "xx", "..", "..">> \o p
PathTo(m) == IF m = Missing THEN <<"d", "none">> ELSE File(m)
RECURSIVE Text(_)
Text(p) == IF Len(p) = 1 THEN p[1] ELSE p[1] \o "/" \o Text(Tail(p))

(* ------------------------------------------------------------ the machine --- *)
Names == {"vpa", "vpb", "vpinc", "vpget"}
Private == {"vpp", "vpq"}
(* values: <<"i", n>>, <<"inc", m>>, <<"get", m>>; a frame of names is a sequence of <<name, value>>, newest first *)
RECURSIVE Find(_, _)
Find(fr, n) == IF fr = <<>> THEN <<>> ELSE IF fr[1][1] = n THEN fr[1][2] ELSE Find(Tail(fr), n)
Bind(S, m, n, v) == [S EXCEPT !.env[m] = <<<<n, v>>>> \o @]
Note(S, m, v) == [S EXCEPT !.log = Append(@, <<m, v>>)]
Good(S) == [S |-> S, ok |-> TRUE]
Bad(S) == [S |-> S, ok |-> FALSE]
(* looking at a value: functions are called *)
Look(S, m, v) ==
  CASE v = <<>> -> Note(S, m, <<"unbound">>)
    [] v # <<>> /\ v[1] = "i" -> Note(S, m, v)
    [] v # <<>> /\ v[1] = "get" -> Note(S, m, <<"i", S.p[v[2]]>>)
    [] v # <<>> /\ v[1] = "inc" -> Note([S EXCEPT !.p[v[2]] = @ + 1], m, <<"i", S.p[v[2]] + 1>>)
RECURSIVE BindAll(_, _, _, _)
BindAll(S, m, ns, pre) == IF ns = <<>> THEN S ELSE BindAll(Bind(S, m, pre \o ns[1][1], ns[1][2]), m, Tail(ns), pre)
Ordered(ex) == SelectSeq([i \in 1..4 |-> LET n == <<"vpa", "vpb", "vpinc", "vpget">>[i] IN <<n, Find(ex, n)>>], LAMBDA e : e[2] # <<>>)
RECURSIVE Load(_, _, _), Exec(_, _, _, _)
Load(P, S, m) ==
  IF m = Missing THEN Bad(S)
  ELSE IF m \in S.loaded THEN Good(S)
  ELSE IF m \in S.loading \/ P[m].broken THEN Bad(S)
  ELSE LET S1 == Note([S EXCEPT !.loading = @ \cup {m}, !.p[m] = m * 100, !.ex[m] = <<>>, !.env[m] = <<<<"vpq" \o ToString(m), <<"i", m>>>>>>], m, <<"load">>)
           R == Exec(P, S1, m, 1)
       IN IF R.ok THEN Good([R.S EXCEPT !.loading = @ \ {m}, !.loaded = @ \cup {m}]) ELSE Bad([R.S EXCEPT !.loading = @ \ {m}])
(* bind what an import of a loaded module asks for *)
Import(S, m, t, s) ==
  LET ex == S.ex[t]  a == Find(ex, s.n1)  b == Find(ex, s.n2) IN
  CASE s.f = "one" -> IF a = <<>> THEN Bad(S) ELSE Good(Bind(S, m, s.n1, a))
    [] s.f = "as" -> IF a = <<>> THEN Bad(S) ELSE Good(Bind(S, m, "vpx", a))
    [] s.f = "two" -> IF a = <<>> THEN Bad(S) ELSE IF b = <<>> THEN Bad(Bind(S, m, s.n1, a)) ELSE Good(Bind(Bind(S, m, s.n1, a), m, "vpx", b))
    [] s.f = "use" -> Good(BindAll(S, m, Ordered(ex), ""))
    [] s.f = "req" -> Good(BindAll(S, m, Ordered(ex), s.path \o "/"))
    [] OTHER -> Bad(S)
Exec(P, S, m, i) ==
  IF i > Len(P[m].body) THEN Good(S)
  ELSE LET s == P[m].body[i] IN
    CASE s.k = "exp" -> Exec(P, [S EXCEPT !.ex[m] = <<<<s.n1, s.v>>>> \o @], m, i + 1)
      [] s.k = "see" -> Exec(P, Look(S, m, Find(S.env[m], s.n1)), m, i + 1)
      [] s.k = "fail" -> Bad(S)
      [] s.k = "imp" ->
           LET t == Target(Norm(Dirs[m], s.segs))
               R == Load(P, S, t)
               Q == IF R.ok THEN Import(R.S, m, t, s) ELSE R
           IN IF Q.ok THEN Exec(P, Q.S, m, i + 1) ELSE Bad(Q.S)
      (* an import whose failure is caught, and of which only one value is looked at *)
      [] OTHER ->
           LET t == Target(Norm(Dirs[m], s.segs))
               R == Load(P, S, t)
               v == IF R.ok THEN Find(R.S.ex[t], s.n1) ELSE <<>>
           IN Exec(P, IF v = <<>> THEN Note(R.S, m, <<"err">>) ELSE Look(R.S, m, v), m, i + 1)
Start == [loaded |-> {}, loading |-> {}, p |-> [m \in 1..NM |-> 0], ex |-> [m \in 1..NM |-> <<>>], env |-> [m \in 1..NM |-> <<>>], log |-> <<>>]
Run(P) == LET R == Load(P, Start, 1) IN [ok |-> R.ok, log |-> R.S.log, loaded |-> R.S.loaded]

(* ----------------------------------------------------------------- laws --- *)
Count(log, m) == Cardinality({i \in 1..Len(log) : log[i] = <<m, <<"load">>>>})
Fails(P) == {m \in 1..NM : P[m].broken \/ \E i \in 1..Len(P[m].body) : P[m].body[i].k \in {"fail", "imp"}}
OnceEach(P, r) == \A m \in 1..NM : (m \notin Fails(P) => Count(r.log, m) <= 1) /\ (m \in r.loaded => Count(r.log, m) >= 1)
(* a module's own names are never changed by others: what it exports from itself carries its own number *)
Laws == st.P # <<>> => LET r == Run(st.P) IN
   /\ OnceEach(st.P, r)
   /\ \A m \in 1..NM : \A i \in 1..Len(st.P[m].body) : LET s == st.P[m].body[i] IN
        (s.k \in {"imp", "try"} => Norm(Dirs[m], s.segs) = PathTo(s.t))
SpellLaw == \A a \in 1..NM, b \in 1..NM, k \in 0..8 : Norm(Dirs[a], Spell(a, File(b), k)) = File(b)

(* ------------------------------------------------------------- behaviours --- *)
S0 == [k |-> "", n1 |-> "", n2 |-> "", f |-> "", t |-> 0, segs |-> <<>>, path |-> "", v |-> <<>>]
Imp(k, m, t, f, n1, n2, sp) == LET q == Spell(m, PathTo(t), sp) IN [S0 EXCEPT !.k = k, !.t = t, !.f = f, !.n1 = n1, !.n2 = n2, !.segs = q, !.path = Text(q)]
Exp(n, v) == [S0 EXCEPT !.k = "exp", !.n1 = n, !.v = v]
See(n) == [S0 EXCEPT !.k = "see", !.n1 = n]
FourNames == <<"vpa", "vpb", "vpinc", "vpget">>
Stmt(m, x) ==
  LET t == IF x.t > NM THEN Missing ELSE x.t  n == FourNames[x.n]  n2 == FourNames[Mod(x.n + x.j, 4) + 1] IN
  CASE x.o < 24 -> Exp(n, CASE n = "vpinc" -> <<"inc", m>> [] n = "vpget" -> <<"get", m>> [] OTHER -> <<"i", m * 10 + x.j>>)
    [] x.o >= 24 /\ x.o < 34 -> See(n)
    [] x.o >= 34 /\ x.o < 37 -> See("vpx")
    [] x.o >= 37 /\ x.o < 39 -> See(<<"vpq1", "vpq2", "vpq3">>[Mod(x.n, 3) + 1])
    [] x.o = 39 -> [S0 EXCEPT !.k = "fail"]
    [] x.o >= 40 /\ x.o < 70 -> Imp("try", m, t, "one", n, n2, x.s)
    [] x.o >= 70 /\ x.o < 77 -> Imp("imp", m, t, "one", n, n2, x.s)
    [] x.o >= 77 /\ x.o < 82 -> Imp("imp", m, t, "as", n, n2, x.s)
    [] x.o >= 82 /\ x.o < 86 -> Imp("imp", m, t, "two", n, n2, x.s)
    [] x.o >= 86 /\ x.o < 93 -> Imp("imp", m, t, "use", n, n2, x.s)
    [] OTHER -> Imp("imp", m, t, "req", n, n2, x.s)
Rnd(S, z) == IF z < 0 THEN 0 ELSE RandomElement(S)
DrawStmt(z) == [o |-> Rnd(0..99, z), t |-> Rnd(1..(NM + 1), z), n |-> Rnd(1..4, z), j |-> Rnd(0..2, z), s |-> Rnd(0..8, z)]
DrawMod(z) == [broken |-> Rnd(0..19, z) = 0, len |-> Rnd(0..LEN, z), full |-> Rnd(0..2, z), b1 |-> DrawStmt(z), b2 |-> DrawStmt(z), b3 |-> DrawStmt(z), b4 |-> DrawStmt(z), b5 |-> DrawStmt(z), b6 |-> DrawStmt(z)]
DrawAll(z) == [m1 |-> DrawMod(z), m2 |-> DrawMod(z), m3 |-> DrawMod(z), m4 |-> DrawMod(z), m5 |-> DrawMod(z), m6 |-> DrawMod(z)]
Whole(m) == <<Exp("vpa", <<"i", m * 10>>), Exp("vpinc", <<"inc", m>>), Exp("vpget", <<"get", m>>)>>
ReqNames(m, b) == LET is == SelectSeq([i \in 1..Len(b) |-> i], LAMBDA i : b[i].k = "imp" /\ b[i].f = "req") IN
  [j \in 1..(2 * Len(is)) |-> See(b[is[(j + 1) \div 2]].path \o (IF Mod(j, 2) = 0 THEN "/vpa" ELSE "/vpinc"))]
Body(m, d) == LET dd == <<d.b1, d.b2, d.b3, d.b4, d.b5, d.b6>>
                  b == (IF d.full > 0 THEN Whole(m) ELSE <<>>) \o [i \in 1..d.len |-> Stmt(m, dd[i])]
              IN b \o ReqNames(m, b) \o <<See("vpa"), See("vpx"), See("vpq2")>>
vars == <<st>>
SimInit == st = [P |-> <<>>, i |-> 0]
SimNext == \E j \in 1..4 : \E r \in {DrawAll(st.i * 10 + j)} :
   LET d == <<r.m1, r.m2, r.m3, r.m4, r.m5, r.m6>> IN
   st' = [P |-> [m \in 1..NM |-> [broken |-> d[m].broken /\ m > 1, body |-> Body(m, d[m])]], i |-> st.i + 1]

(* all import graphs over NM modules, up to two caught imports each, repeated ones included *)
Graphs == {<<>>} \cup {<<a>> : a \in 1..(NM + 1)} \cup {<<a, b>> : a \in 1..(NM + 1), b \in 1..(NM + 1)}
Caught(m, g, k) == [i \in 1..Len(g) |-> Imp("try", m, IF g[i] > NM THEN Missing ELSE g[i], "one", IF k = 1 THEN "vpinc" ELSE <<"vpget", "vpinc">>[i], "", Mod(m * 3 + i * 2 + g[i] + k, 9))]
Init == st = [P |-> <<>>, i |-> 0]
Next == st.i = 0 /\ \E g \in [1..NM -> Graphs], k \in {1, 2} :
   st' = [P |-> [m \in 1..NM |-> [broken |-> FALSE, body |-> IF k = 1 THEN Whole(m) \o Caught(m, g[m], k) ELSE Caught(m, g[m], k) \o Whole(m)]], i |-> 1]
Emit == (st.P # <<>>) => PrintT("@" \o ToJson([P |-> st.P, r |-> LET r == Run(st.P) IN [ok |-> r.ok, log |-> r.log]]))
===============================================================================
