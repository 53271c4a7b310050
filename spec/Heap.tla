--------------------------------- MODULE Heap ---------------------------------
(* The heap and its mark-and-sweep collector, seen from a program that holds   *)
(* objects in variables and in pending frames (arguments of pending calls,     *)
(* captured variables, handlers, thrown values ...).                           *)
(* A cell is free (on the free list, or never used: index > max) or holds one  *)
(* object of a kind with up to two references.  Collections happen when the    *)
(* program asks for one and when no cell is left.                              *)
(* Checked on the model: nothing reachable is ever freed, no cell is handed    *)
(* out twice, the free list is exactly the unused cells, a collection leaves   *)
(* exactly the reachable cells.  Behaviours are replayed in the interpreter,   *)
(* under many schedules of additional collections.                             *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC, Json
CONSTANTS N, NV, LEN
VARIABLES st

Two == {"pair", "arr", "tree", "clo", "env"}            \* kinds with two references
Leaf == {"str", "buf", "sym"}
Kinds == Two \cup Leaf \cup {"view"}
Mutable == {"arr", "tree", "clo"}
Hows == {"local", "arg", "rest", "array", "tree", "list", "handler", "thrown", "capture", "callarg", "method", "eval", "loop", "literal", "or"}
Cells == 1..N
Vars == 1..NV
None == <<0, 0>>

(* ------------------------------------------------------------ collector -- *)
RECURSIVE Mark(_, _, _)
Mark(f, m, c) == IF c = 0 \/ c \in m THEN m ELSE Mark(f, Mark(f, m \cup {c}, f[c][1]), f[c][2])
RECURSIVE MarkAll(_, _, _)
MarkAll(f, m, rs) == IF rs = <<>> THEN m ELSE MarkAll(f, Mark(f, m, Head(rs)), Tail(rs))
Roots(s) == [i \in Vars |-> s.var[i]] \o [i \in 1..Len(s.frames) |-> s.frames[i].held]
RECURSIVE Sweep(_, _, _)
Sweep(s, m, i) == IF i > s.max THEN s
                  ELSE IF i \in m \/ s.kind[i] = "free" THEN Sweep(s, m, i + 1)
                  ELSE Sweep([s EXCEPT !.kind[i] = "free", !.f[i] = None, !.ser[i] = 0, !.free = <<i>> \o @], m, i + 1)
Collect(s) == Sweep(s, MarkAll(s.f, {}, Roots(s)), 1)

(* what is reachable, defined on its own as a least fixed point *)
RECURSIVE Closed(_, _)
Closed(f, S) == LET T == S \cup ({f[c][i] : c \in S, i \in 1..2} \ {0}) IN IF T = S THEN S ELSE Closed(f, T)
Reach(s) == Closed(s.f, {Roots(s)[i] : i \in DOMAIN Roots(s)} \ {0})

(* -------------------------------------------------------------- mutator -- *)
Full(s) == s.free = <<>> /\ s.max = N
Next1(s) == IF s.free # <<>> THEN Head(s.free) ELSE s.max + 1
Put(s, c, k, a, b, n) == [s EXCEPT !.kind[c] = k, !.f[c] = <<a, b>>, !.ser[c] = n]
Alloc(s, v, k, a, b) ==      \* into variable v
  LET c == Next1(s)
      t == IF s.free # <<>> THEN [s EXCEPT !.free = Tail(@)] ELSE [s EXCEPT !.max = @ + 1]
  IN [Put(t, c, k, a, b, s.n + 1) EXCEPT !.n = @ + 1, !.var[v] = c, !.born = c]
Room(s) == IF Full(s) THEN Collect(s) ELSE s
Val(s, x) == IF x = 0 THEN 0 ELSE s.var[x]
Log(s, op) == [s EXCEPT !.hist = Append(@, op), !.last = op[1]]

New(v, k, x, y) == LET s == Room(st) IN /\ ~Full(s) /\ st' = Log(Alloc(s, v, k, Val(s, x), Val(s, y)), <<"new", v, k, x, y>>)
Set(v, i, x) == /\ st.var[v] # 0 /\ st.kind[st.var[v]] \in Mutable
                /\ st' = Log([st EXCEPT !.f[st.var[v]][i] = Val(st, x)], <<"set", v, st.kind[st.var[v]], i, x>>)
Get(v, w, i) == /\ st.var[w] # 0 /\ (st.kind[st.var[w]] \in Two \/ (st.kind[st.var[w]] = "view" /\ i = 1))
                /\ st' = Log([st EXCEPT !.var[v] = st.f[st.var[w]][i]], <<"get", v, st.kind[st.var[w]], w, i>>)
Copy(v, w) == v # w /\ st' = Log([st EXCEPT !.var[v] = st.var[w]], <<"copy", v, w>>)
Clear(v) == st.var[v] # 0 /\ st' = Log([st EXCEPT !.var[v] = 0], <<"clear", v>>)
Push(v, h) == /\ st.var[v] # 0 /\ Len(st.frames) < 4
              /\ st' = Log([st EXCEPT !.frames = Append(@, [held |-> st.var[v], how |-> h, v |-> v]), !.var[v] = 0], <<"push", v, h>>)
Pop == /\ st.frames # <<>>
       /\ LET fr == st.frames[Len(st.frames)] IN
          st' = Log([st EXCEPT !.var[fr.v] = fr.held, !.frames = SubSeq(@, 1, Len(@) - 1)], <<"pop", fr.v, fr.how>>)
KindSeq == SetToSeq(Kinds)
Count(s, k) == Cardinality({c \in Cells : s.kind[c] = k})
GC == LET s == Collect(st) IN
      st' = Log([s EXCEPT !.n = @], IF s.frames = <<>> THEN <<"gc", [k \in Kinds |-> Count(s, k)]>> ELSE <<"gc", 0>>)

Init == st = [kind |-> [c \in Cells |-> "free"], f |-> [c \in Cells |-> None], ser |-> [c \in Cells |-> 0], free |-> <<>>, max |-> 0,
              var |-> [v \in Vars |-> 0], frames |-> <<>>, n |-> 0, hist |-> <<>>, last |-> "", born |-> 0]
More == Len(st.hist) < LEN
Next == /\ More
        /\ \/ \E v \in Vars, k \in Two, x \in 0..NV, y \in 0..NV : New(v, k, x, y)
           \/ \E v \in Vars, k \in Leaf : New(v, k, 0, 0)
           \/ \E v \in Vars, x \in Vars : st.var[x] # 0 /\ st.kind[st.var[x]] = "buf" /\ New(v, "view", x, 0)
           \/ \E v \in Vars, i \in 1..2, x \in 0..NV : Set(v, i, x)
           \/ \E v \in Vars, w \in Vars, i \in 1..2 : Get(v, w, i)
           \/ \E v \in Vars, w \in Vars : Copy(v, w)
           \/ \E v \in Vars : Clear(v)
           \/ \E v \in Vars, h \in Hows : Push(v, h)
           \/ Pop
           \/ GC

(* simulation: one random operation per step, frames closed at the end *)
R(S) == RandomElement(S)
SimNext ==
  IF ~More THEN (st.frames # <<>> /\ Pop)
  ELSE \E d \in {R(1..12)} : \E v \in {R(Vars)}, w \in {R(Vars)}, x \in {R(0..NV)}, y \in {R(0..NV)}, k \in {R(Two)}, l \in {R(Leaf)}, i \in {R(1..2)}, h \in {R(Hows)} :
       CASE d \in 1..3 -> New(v, k, x, y)
         [] d = 4 -> New(v, l, 0, 0)
         [] d = 5 -> IF st.var[x + (IF x = 0 THEN 1 ELSE 0)] # 0 /\ st.kind[st.var[x + (IF x = 0 THEN 1 ELSE 0)]] = "buf" THEN New(v, "view", x + (IF x = 0 THEN 1 ELSE 0), 0) ELSE New(v, "buf", 0, 0)
         [] d \in 6..7 -> IF st.var[v] # 0 /\ st.kind[st.var[v]] \in Mutable THEN Set(v, i, x) ELSE New(v, k, w, x)
         [] d = 8 -> IF st.var[w] # 0 /\ st.kind[st.var[w]] \in Two THEN Get(v, w, i) ELSE GC
         [] d = 9 -> IF st.var[v] # 0 THEN Clear(v) ELSE GC
         [] d = 10 -> IF st.var[v] # 0 /\ Len(st.frames) < 4 THEN Push(v, h) ELSE GC
         [] d = 11 -> IF st.frames # <<>> THEN Pop ELSE GC
         [] d = 12 -> GC

(* ------------------------------------------------------------ properties - *)
FreeSet == {st.free[i] : i \in DOMAIN st.free}
FreeListExact == Len(st.free) = Cardinality(FreeSet) /\ FreeSet = {c \in Cells : c <= st.max /\ st.kind[c] = "free"}
NoDangling == \A c \in Reach(st) : st.kind[c] # "free"
NoneHandedOutTwice == \A c, d \in Cells : (c # d /\ st.ser[c] # 0) => st.ser[c] # st.ser[d]
Exact == st.last = "gc" => {c \in Cells : st.kind[c] # "free"} = Reach(st)
(* a step other than an allocation's never changes what is alive, except that a collection drops the unreachable *)
KeepsContents == [][\A c \in Reach(st) : c \in Reach(st') => (st'.ser[c] = st.ser[c] /\ st'.kind[c] = st.kind[c])]_st

Done == ~More /\ st.frames = <<>>
Emit == Done => PrintT("@" \o ToJson([h |-> st.hist, kind |-> st.kind, f |-> st.f, ser |-> st.ser, var |-> st.var]))
===============================================================================
