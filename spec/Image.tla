--------------------------------- MODULE Image ---------------------------------
(* Images: a heap of objects referring to each other, and saving and loading   *)
(* parts of it.  Saving a value takes a snapshot of everything reachable from  *)
(* it; loading an image makes new objects of the same kinds, contents and      *)
(* mutability which refer to each other exactly as those in the snapshot do    *)
(* (shared objects stay shared, cycles stay cycles), however often it is       *)
(* loaded, and apart from the originals.  Functions and macros share the       *)
(* environment they were made in; an image is itself a value that can be       *)
(* saved.  Four registers hold values; a behaviour makes, changes, saves,      *)
(* loads and takes apart values, and ends with a view of all four registers.   *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS STEPS, NATOMS, WORDS, MODE
VARIABLES h, reg, log

(* values: <<"a", k>> for atom number k, <<"o", id>> for an object *)
Nil == <<"a", 1>>
Mod(a, b) == a % b
Obj(k, f, m, x) == [k |-> k, f |-> f, m |-> m, x |-> x]
Keys == 4
IsObj(v) == v[1] = "o"
Children(o) == CASE o.k = "tree" -> SelectSeq(o.f, LAMBDA v : v[1] # "none")
                 [] o.k \in {"buf", "str", "img"} -> <<>>
                 [] OTHER -> o.f

(* ------------------------------------------------------- looking at a heap --- *)
IndexOf(s, e) == IF \E i \in 1..Len(s) : s[i] = e THEN CHOOSE i \in 1..Len(s) : s[i] = e ELSE 0
RECURSIVE Reach(_, _, _)
Reach(hp, todo, seen) ==
  IF todo = <<>> THEN seen
  ELSE LET v == Head(todo) IN
       IF v[1] # "o" THEN Reach(hp, Tail(todo), seen)
       ELSE IF IndexOf(seen, v[2]) > 0 THEN Reach(hp, Tail(todo), seen)
       ELSE Reach(hp, Children(hp[v[2]]) \o Tail(todo), Append(seen, v[2]))
Head1(o, n) ==
  CASE o.k = "tree" -> <<"tree", n, o.m, [i \in 1..Keys |-> o.f[i][1] # "none"]>>
    [] o.k \in {"buf", "str"} -> <<o.k, n, o.m, o.f>>
    [] o.k = "view" -> <<"view", n, o.m, o.x>>
    [] o.k = "arr" -> <<"arr", n, TRUE, Len(o.f)>>
    [] o.k = "code" -> <<"code", n, o.x>>
    [] OTHER -> <<o.k, n>>
RECURSIVE Walk(_, _, _, _)
Walk(hp, todo, seen, out) ==
  IF todo = <<>> THEN out
  ELSE LET v == Head(todo) IN
       IF v[1] # "o" THEN Walk(hp, Tail(todo), seen, Append(out, v))
       ELSE IF IndexOf(seen, v[2]) > 0 THEN Walk(hp, Tail(todo), seen, Append(out, <<"r", IndexOf(seen, v[2])>>))
       ELSE Walk(hp, Children(hp[v[2]]) \o Tail(todo), Append(seen, v[2]), Append(out, Head1(hp[v[2]], Len(seen) + 1)))
Dump(hp, vs) == Walk(hp, vs, <<>>, <<>>)

(* ----------------------------------------------------------- save and load --- *)
Move(v, f(_)) == IF v[1] = "o" THEN <<"o", f(v[2])>> ELSE v
Renamed(o, f(_)) == IF o.k \in {"buf", "str", "img"} THEN o ELSE [o EXCEPT !.f = [i \in 1..Len(o.f) |-> Move(o.f[i], f)]]
Snapshot(hp, v) ==
  LET ids == Reach(hp, <<v>>, <<>>)
      new(i) == IndexOf(ids, i)
  IN [h |-> [j \in 1..Len(ids) |-> Renamed(hp[ids[j]], new)], r |-> Move(v, new)]
LoadHeap(hp, s) == LET new(i) == i + Len(hp) IN hp \o [j \in 1..Len(s.h) |-> Renamed(s.h[j], new)]
LoadValue(hp, s) == LET new(i) == i + Len(hp) IN Move(s.r, new)

(* -------------------------------------------------------------- operations --- *)
Types == <<"u8", "s8", "u16", "s16", "u32", "s32", "s64", "f32", "f64">>
Slots(o) == CASE o.k \in {"env", "fn"} -> 1 [] o.k = "tree" -> Keys [] o.k \in {"arr", "buf"} -> Len(o.f) [] o.k = "view" -> 1 [] OTHER -> 0
Kinds(ks) == SelectSeq(<<1, 2, 3, 4>>, LAMBDA r : IF IsObj(reg[r]) THEN h[reg[r][2]].k \in ks ELSE FALSE)
Pick(s, n) == s[Mod(n, Len(s)) + 1]
(* an operand: a register or an atom; the second half of the numbers are atoms *)
Arg(n) == IF Mod(n, 2) = 0 THEN <<"reg", Mod(n \div 2, 4) + 1>> ELSE <<"atom", Mod(n \div 2, NATOMS) + 1>>
ArgVal(a) == IF a[1] = "reg" THEN reg[a[2]] ELSE <<"a", a[2]>>
Bytes(n, m) == [i \in 1..n |-> Mod(m + i * i * 37, 256)]

Step(op, hp, rg, ok) == h' = hp /\ reg' = rg /\ log' = Append(log, [op |-> op, ok |-> ok])
Put(op, d, o) == Step(op, Append(h, o), [reg EXCEPT ![d] = <<"o", Len(h) + 1>>], TRUE)
Make(r, d) ==
  LET a == Arg(r.a)  b == Arg(r.b)  n == Mod(r.c, 4) IN
  CASE Mod(r.k, 10) = 0 -> Put(<<"cons", d, a, b>>, d, Obj("pair", <<ArgVal(a), ArgVal(b)>>, TRUE, ""))
    [] Mod(r.k, 10) = 1 -> Put(<<"arr", d, a, b, n>>, d, Obj("arr", SubSeq(<<ArgVal(a), ArgVal(b), ArgVal(a)>>, 1, n), TRUE, ""))
    [] Mod(r.k, 10) \in {2, 3} -> LET k1 == Mod(r.c, Keys) + 1  k2 == Mod(r.c \div Keys, Keys) + 1  none == Mod(r.c, 7) = 0 IN
          Put(<<"tree", d, a, b, k1, k2, none>>, d,
              Obj("tree", [i \in 1..Keys |-> IF none THEN <<"none", 0>> ELSE IF i = k2 THEN ArgVal(b) ELSE IF i = k1 THEN ArgVal(a) ELSE <<"none", 0>>], TRUE, ""))
    [] Mod(r.k, 10) = 4 -> LET k1 == Mod(r.c, Keys) + 1 IN
          Put(<<"treei", d, Mod(r.a, WORDS) + 1, k1>>, d, Obj("tree", [i \in 1..Keys |-> IF i = k1 THEN <<"a", Mod(r.a, WORDS) + 1>> ELSE <<"none", 0>>], FALSE, ""))
    [] Mod(r.k, 10) = 5 -> LET len == Pick(<<0, 1, 8, 16, 9>>, r.a)  im == Mod(r.b, 3) = 0 IN
          Put(<<"buf", d, Bytes(len, r.c), im>>, d, Obj("buf", Bytes(len, r.c), ~im, ""))
    [] Mod(r.k, 10) = 6 -> Put(<<"str", d, Bytes(Mod(r.a, 6), r.c)>>, d, Obj("str", Bytes(Mod(r.a, 6), r.c), FALSE, ""))
    [] OTHER -> LET ks == <<"fn", "fn", "mac", "env">>  k == Pick(ks, r.c)  d2 == Mod(d + r.b \div 100, 4) + 1 IN
          Step(<<"clos", d, d2, a, k>>,
               h \o <<Obj("env", <<ArgVal(a)>>, TRUE, ""), Obj("fn", <<<<"o", Len(h) + 1>>>>, TRUE, "")>>
                 \o (IF k = "env" THEN <<>> ELSE <<Obj(k, <<<<"o", Len(h) + 1>>>>, TRUE, "")>>),
               [reg EXCEPT ![d] = <<"o", Len(h) + 2>>, ![d2] = IF d2 = d THEN <<"o", Len(h) + 2>> ELSE <<"o", IF k = "env" THEN Len(h) + 1 ELSE Len(h) + 3>>], TRUE)
MakeView(r, d) ==
  LET s == Pick(Kinds({"buf"}), r.a)  o == h[reg[s][2]]  t == Pick(Types, r.b)  im == Mod(r.c, 3) = 0 IN
  IF ~o.m /\ ~im THEN Step(<<"view", d, s, t, im>>, h, reg, FALSE)
  ELSE Put(<<"view", d, s, t, im>>, d, Obj("view", <<reg[s]>>, ~im, [t |-> t, d |-> o.f]))
(* what the views of a buffer show follows the buffer, but not its length *)
WithBytes(hp, id, d) == [i \in 1..Len(hp) |->
    IF i = id THEN [hp[i] EXCEPT !.f = d]
    ELSE IF hp[i].k = "view" /\ hp[i].f = <<<<"o", id>>>> THEN [hp[i] EXCEPT !.x.d = SubSeq(d, 1, Len(@))] ELSE hp[i]]
Grow(r) ==
  LET s == Pick(Kinds({"buf"}), r.a)  id == reg[s][2]  o == h[id]  n == Pick(<<1, 8, 24>>, r.b) IN
  IF ~o.m THEN Step(<<"grow", s, Len(o.f) + n>>, h, reg, FALSE)
  ELSE Step(<<"grow", s, Len(o.f) + n>>, WithBytes(h, id, o.f \o [i \in 1..n |-> 0]), reg, TRUE)
(* a program: its bytes and the array of its constants *)
MakeCode(r, d) ==
  LET s == Pick(Kinds({"arr"}), r.a)  bs == Bytes(Mod(r.b, 6), r.c) IN
  Step(<<"code", d, s, bs>>, Append(h, Obj("code", <<reg[s]>>, FALSE, bs)), [reg EXCEPT ![d] = <<"o", Len(h) + 1>>], TRUE)
Set(r) ==
  LET ks == Kinds({"arr", "tree", "buf", "env", "fn"})
      s == Pick(ks, r.a)  id == reg[s][2]  o == h[id]  a == Arg(r.b) IN
  IF Slots(o) = 0 THEN FALSE
  ELSE LET i == Mod(r.c, Slots(o)) + 1
           v == ArgVal(a)
           op == <<"set", s, o.k, i, a>> IN
       CASE o.k = "buf" -> LET b == Mod(r.b, 256) IN
              IF ~o.m THEN Step(<<"setb", s, o.k, i, b>>, h, reg, FALSE)
              ELSE Step(<<"setb", s, o.k, i, b>>, WithBytes(h, id, [o.f EXCEPT ![i] = b]), reg, TRUE)
         [] o.k = "fn" -> Step(op, [h EXCEPT ![o.f[1][2]].f = <<v>>], reg, TRUE)
         [] o.k \in {"tree", "arr"} /\ ~o.m -> Step(op, h, reg, FALSE)
         [] OTHER -> Step(op, [h EXCEPT ![id].f[i] = v], reg, TRUE)
Get(r, d) ==
  LET ks == Kinds({"pair", "arr", "tree", "env", "fn", "view", "code"})
      s == Pick(ks, r.a)  o == h[reg[s][2]]
      is == SelectSeq([i \in 1..Len(o.f) |-> i], LAMBDA i : o.f[i][1] # "none") IN
  IF is = <<>> THEN FALSE
  ELSE LET i == Pick(is, r.b) IN
       IF o.k = "fn" THEN Step(<<"get", d, s, o.k, 1>>, h, [reg EXCEPT ![d] = h[o.f[1][2]].f[1]], TRUE)
       ELSE Step(<<"get", d, s, o.k, i>>, h, [reg EXCEPT ![d] = o.f[i]], TRUE)
Save(r, d) ==
  LET all == Kinds({"pair", "arr", "tree", "buf", "str", "view", "env", "fn", "mac", "img", "code"})  s == Pick(all, r.a) IN
  Put(<<"save", d, s>>, d, Obj("img", <<>>, FALSE, Snapshot(h, reg[s])))
Load(r, d) ==
  LET s == Pick(Kinds({"img"}), r.a)  sn == h[reg[s][2]].x IN
  Step(<<"load", d, s>>, LoadHeap(h, sn), [reg EXCEPT ![d] = LoadValue(h, sn)], TRUE)

Draw(n) == [k |-> RandomElement(0..999), a |-> RandomElement(0..9999), b |-> RandomElement(0..9999), c |-> RandomElement(0..9999), d |-> RandomElement(1..4), o |-> RandomElement(0..99)]
Small == Len(h) <= 60
Some(ks) == Kinds(ks) # <<>>
Act(r) ==
  IF r.o < 30 \/ Len(log) < 2 THEN Make(r, r.d)
  ELSE IF r.o < 36 /\ Some({"buf"}) THEN MakeView(r, r.d)
  ELSE IF r.o < 38 /\ Some({"buf"}) THEN Grow(r)
  ELSE IF r.o < 42 /\ Some({"arr"}) THEN MakeCode(r, r.d)
  ELSE IF r.o < 55 /\ Some({"arr", "tree", "buf", "env", "fn"}) THEN Set(r)
  ELSE IF r.o < 64 /\ Some({"pair", "arr", "tree", "env", "fn", "view", "code"}) THEN Get(r, r.d)
  ELSE IF r.o < 82 /\ Small /\ Some({"img"}) THEN Load(r, r.d)
  ELSE IF Some({"pair", "arr", "tree", "buf", "str", "view", "env", "fn", "mac", "code"}) /\ Small THEN Save(r, r.d)
  ELSE Make(r, r.d)
vars == <<h, reg, log>>
Init == h = <<>> /\ reg = <<Nil, Nil, Nil, Nil>> /\ log = <<>>
(* tries is there so that a drawn step that cannot be taken is drawn again *)
Sampled == \E j \in 1..4 : \E r \in {Draw(Len(log) * 10 + j)} : Act(r)
(* every atom in every place of every container, every kind of buffer and view, all of them saved inside another container and loaded *)
D(k, a, b, c, d) == [k |-> k, a |-> a, b |-> b, c |-> c, d |-> d, o |-> 0]
Every ==
  CASE Len(log) = 0 -> \/ \E k \in {0, 1, 2, 7}, n \in 0..NATOMS - 1 : \E m \in {n, Mod(n + 1, NATOMS)} : Make(D(k, 2 * n + 1, 2 * m + 1, 6 + (n % 4) * 28, 1), 1)
                       \/ \E n \in 0..WORDS - 1 : Make(D(4, n, 0, n, 1), 1)
                       \/ \E n \in 0..4, im \in {0, 1}, c \in {0, 91} : Make(D(5, n, im, c, 1), 1)
                       \/ \E n \in 0..5 : Make(D(6, n, 0, 7 * n, 1), 1)
    [] Len(log) = 1 -> \/ \E k \in {0, 1, 2, 7} : Make(D(k, 0, 1 + 2 * (NATOMS \div 2), 5, 2), 2)
                       \/ \E t \in 0..8, im \in {0, 1} : Some({"buf"}) /\ MakeView(D(0, 0, t, im, 2), 2)
                       \/ Some({"arr"}) /\ MakeCode(D(0, 0, 4, 99, 2), 2)
    [] Len(log) = 2 -> IF Some({"view"}) THEN \E b \in 0..2 : Grow(D(0, 0, b, 0, 1)) ELSE Save(D(0, 1, 0, 0, 3), 3)
    [] Len(log) = 3 -> IF Some({"img"}) THEN Load(D(0, 0, 0, 0, 4), 4) ELSE Save(D(0, 1, 0, 0, 3), 3)
    [] OTHER -> Load(D(0, 0, 0, 0, 4), 4)
Next == /\ Len(log) < STEPS
        /\ IF MODE = "every" THEN Every /\ (Len(log) < 4 \/ (Some({"view"}) /\ log[4].op[1] = "save")) ELSE Sampled

(* ------------------------------------------------------------------- laws --- *)
Images == {i \in 1..Len(h) : h[i].k = "img"}
(* what is loaded looks like what was saved, has no object in common with what was there, and is complete *)
Faithful == \A i \in Images : LET s == h[i].x IN
   /\ Dump(LoadHeap(h, s), <<LoadValue(h, s)>>) = Dump(s.h, <<s.r>>)
   /\ \A k \in 1..Len(Reach(LoadHeap(h, s), <<LoadValue(h, s)>>, <<>>)) : Reach(LoadHeap(h, s), <<LoadValue(h, s)>>, <<>>)[k] > Len(h)
   /\ Len(Reach(s.h, <<s.r>>, <<>>)) = Len(s.h)
Closed == \A i \in 1..Len(h) : \A j \in 1..Len(Children(h[i])) : LET v == Children(h[i])[j] IN v[1] = "o" => v[2] \in 1..Len(h)
ImageOf == \A i \in Images : h[i].x.r[1] # "o" \/ h[i].x.r[2] = 1
Done == Len(log) >= STEPS \/ (MODE = "every" /\ Len(log) >= 4 /\ log[Len(log)].op[1] = "load")
Emit == Done => PrintT("@" \o ToJson([log |-> log, dump |-> Dump(h, reg)]))
===============================================================================
