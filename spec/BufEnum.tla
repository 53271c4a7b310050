-------------------------------- MODULE BufEnum --------------------------------
(* Buffers, strings and typed views as sequences of bytes.  Objects 1.. are    *)
(* buffers ("buf"), strings ("str") or views ("view"); a behaviour is a        *)
(* history of operations, each with a result or an error that changes nothing. *)
(* Numbers are sequences of 8 bytes, little endian, two's complement; indices  *)
(* beyond +-1000000 stand for values around 2^31, 2^32 and 2^63.               *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS DEPTH
VARIABLES st

Big == {1000000, 1000001, 1000002, 1000003}
Small == {-1000000, -1000001}
Types == <<"u8", "s8", "u16", "s16", "u32", "s32", "s64", "f32", "f64">>
W(t) == CASE t \in {"u8", "s8"} -> 1 [] t \in {"u16", "s16"} -> 2 [] t \in {"u32", "s32", "f32"} -> 4 [] t \in {"s64", "f64"} -> 8
IsFloat(t) == t \in {"f32", "f64"}
Signed(t) == t \in {"s8", "s16", "s32", "s64"}
Zeros(n) == [i \in 1..n |-> 0]

(* what can be stored: text, integer bytes (or none), the bytes as a 32 and a 64 bit float *)
NoB == <<>>
Vals == <<
  [t |-> "0", i |-> Zeros(8), f4 |-> Zeros(4), f8 |-> Zeros(8)],
  [t |-> "1", i |-> <<1,0,0,0,0,0,0,0>>, f4 |-> <<0,0,128,63>>, f8 |-> <<0,0,0,0,0,0,240,63>>],
  [t |-> "-1", i |-> <<255,255,255,255,255,255,255,255>>, f4 |-> <<0,0,128,191>>, f8 |-> <<0,0,0,0,0,0,240,191>>],
  [t |-> "127", i |-> <<127,0,0,0,0,0,0,0>>, f4 |-> <<0,0,254,66>>, f8 |-> <<0,0,0,0,0,192,95,64>>],
  [t |-> "128", i |-> <<128,0,0,0,0,0,0,0>>, f4 |-> <<0,0,0,67>>, f8 |-> <<0,0,0,0,0,0,96,64>>],
  [t |-> "255", i |-> <<255,0,0,0,0,0,0,0>>, f4 |-> <<0,0,127,67>>, f8 |-> <<0,0,0,0,0,224,111,64>>],
  [t |-> "256", i |-> <<0,1,0,0,0,0,0,0>>, f4 |-> <<0,0,128,67>>, f8 |-> <<0,0,0,0,0,0,112,64>>],
  [t |-> "-129", i |-> <<127,255,255,255,255,255,255,255>>, f4 |-> <<0,0,1,195>>, f8 |-> <<0,0,0,0,0,32,96,192>>],
  [t |-> "32768", i |-> <<0,128,0,0,0,0,0,0>>, f4 |-> <<0,0,0,71>>, f8 |-> <<0,0,0,0,0,0,224,64>>],
  [t |-> "65535", i |-> <<255,255,0,0,0,0,0,0>>, f4 |-> <<0,255,127,71>>, f8 |-> <<0,0,0,0,224,255,239,64>>],
  [t |-> "305419896", i |-> <<120,86,52,18,0,0,0,0>>, f4 |-> <<180,162,145,77>>, f8 |-> <<0,0,0,120,86,52,178,65>>],
  [t |-> "2147483648", i |-> <<0,0,0,128,0,0,0,0>>, f4 |-> <<0,0,0,79>>, f8 |-> <<0,0,0,0,0,0,224,65>>],
  [t |-> "-2147483649", i |-> <<255,255,255,127,255,255,255,255>>, f4 |-> <<0,0,0,207>>, f8 |-> <<0,0,32,0,0,0,224,193>>],
  [t |-> "4294967295", i |-> <<255,255,255,255,0,0,0,0>>, f4 |-> <<0,0,128,79>>, f8 |-> <<0,0,224,255,255,255,239,65>>],
  [t |-> "#x8000000000000000", i |-> <<0,0,0,0,0,0,0,128>>, f4 |-> <<0,0,0,223>>, f8 |-> <<0,0,0,0,0,0,224,195>>],
  [t |-> "#x7FEDCBA987654321", i |-> <<33,67,101,135,169,203,237,127>>, f4 |-> <<151,219,255,94>>, f8 |-> <<81,217,97,234,114,251,223,67>>],
  [t |-> "1.5", i |-> NoB, f4 |-> <<0,0,192,63>>, f8 |-> <<0,0,0,0,0,0,248,63>>],
  [t |-> "-0.25", i |-> NoB, f4 |-> <<0,0,128,190>>, f8 |-> <<0,0,0,0,0,0,208,191>>],
  [t |-> "1000.5", i |-> NoB, f4 |-> <<0,32,122,68>>, f8 |-> <<0,0,0,0,0,68,143,64>>],
  [t |-> "0.1", i |-> NoB, f4 |-> <<205,204,204,61>>, f8 |-> <<154,153,153,153,153,153,185,63>>],
  [t |-> ":k", i |-> NoB, f4 |-> NoB, f8 |-> NoB],
  [t |-> "#nil", i |-> NoB, f4 |-> NoB, f8 |-> NoB],
  [t |-> "\"1\"", i |-> NoB, f4 |-> NoB, f8 |-> NoB] >>
Storable(t, v) == CASE t = "f32" -> v.f4 [] t = "f64" -> v.f8 [] OTHER -> IF v.i = NoB THEN NoB ELSE SubSeq(v.i, 1, W(t))

(* -------------------------------------------------------------- objects --- *)
Buf(d, imm) == [k |-> "buf", d |-> d, imm |-> imm, b |-> 0, t |-> "", n |-> 0]
Str(d) == [k |-> "str", d |-> d, imm |-> TRUE, b |-> 0, t |-> "", n |-> 0]
View(b, t, n, imm) == [k |-> "view", d |-> <<>>, imm |-> imm, b |-> b, t |-> t, n |-> n]
Sub(d, from, to) == SubSeq(d, from + 1, to)                        \* bytes from..to-1
Patch(d, at, bs) == [i \in 1..Len(d) |-> IF i > at /\ i <= at + Len(bs) THEN bs[i - at] ELSE d[i]]
Elem(os, o, i) == LET w == W(o.t) IN Sub(os[o.b].d, i * w, i * w + w)
Extend(t, bs) == bs \o [i \in 1..(8 - Len(bs)) |-> IF Signed(t) /\ bs[Len(bs)] >= 128 THEN 255 ELSE 0]
Read(t, bs) == IF IsFloat(t) THEN <<"f", bs>> ELSE <<"i", Extend(t, bs)>>
Size(o) == IF o.k = "view" THEN o.n ELSE Len(o.d)
Max(a, b) == IF a > b THEN a ELSE b
Min(a, b) == IF a < b THEN a ELSE b

(* ----------------------------------------------------------- operations --- *)
Res(os, r) == [os |-> os, r |-> r]
Fail(os) == Res(os, <<"err">>)
New(os, o) == Res(Append(os, o), <<"new">>)
Absent == -9    \* an argument that is not given
Nil == -8       \* #nil

DoRef(os, o, i) == IF i < 0 \/ i >= Size(os[o]) THEN Fail(os)
                   ELSE Res(os, IF os[o].k = "view" THEN Read(os[o].t, Elem(os, os[o], i)) ELSE <<"i", Extend("u8", <<os[o].d[i + 1]>>)>>)
DoSet(os, o, i, v) ==
  LET t == IF os[o].k = "view" THEN os[o].t ELSE "u8"
      b == IF os[o].k = "view" THEN os[o].b ELSE o
      x == Storable(t, Vals[v])
  IN IF os[o].k = "str" \/ os[o].imm \/ os[b].imm \/ i < 0 \/ i >= Size(os[o]) \/ x = NoB THEN Fail(os)
     ELSE Res([os EXCEPT ![b].d = Patch(@, i * W(t), x)], <<"self">>)
DoView(os, o, t, imm) ==
  IF os[o].k # "buf" \/ (imm = 0 /\ os[o].imm) THEN Fail(os)
  ELSE New(os, View(o, t, Len(os[o].d) \div W(t), imm = 1 \/ os[o].imm))
DoCopy(os, o, s, at, n) ==
  LET len == IF n \in {Absent, Nil} THEN Size(os[s]) ELSE n IN
  IF os[o].k # "buf" \/ os[o].imm \/ os[s].k = "view" \/ at < 0 \/ len < 0 \/ len > Size(os[s]) \/ at + len > Size(os[o]) THEN Fail(os)
  ELSE Res([os EXCEPT ![o].d = Patch(@, at, Sub(os[s].d, 0, len))], <<"self">>)
DoCut(os, o, a, e) ==
  LET from == Max(0, a)  to == IF e \in {Absent, Nil} THEN Size(os[o]) ELSE Min(e, Size(os[o]))
      d == IF from >= to THEN <<>> ELSE Sub(os[o].d, from, to)
  IN IF os[o].k = "view" THEN Fail(os) ELSE New(os, IF os[o].k = "str" THEN Str(d) ELSE Buf(d, FALSE))
DoClone(os, o, imm) == IF os[o].k = "view" THEN Fail(os) ELSE New(os, Buf(os[o].d, imm = 1))
DoGrow(os, o, n) == IF os[o].k # "buf" \/ os[o].imm \/ n < Size(os[o]) \/ n > 100000 THEN Fail(os)
                    ELSE Res([os EXCEPT ![o].d = @ \o Zeros(n - Len(@))], <<"self">>)
DoStr(os, o, n, at) ==
  LET to == IF n \in {Absent, Nil} THEN Size(os[o]) ELSE Min(n, Size(os[o]))  from == IF at \in {Absent, Nil} THEN 0 ELSE at IN
  IF os[o].k # "buf" \/ from < 0 \/ to < 0 THEN Fail(os)
  ELSE New(os, Str(IF from >= to THEN <<>> ELSE Sub(os[o].d, from, to)))
(* a buffer becomes a string of all its bytes, a string stays the same string *)
DoText(os, o) == CASE os[o].k = "buf" -> New(os, Str(os[o].d)) [] os[o].k = "str" -> Res(os, <<"is", o>>) [] OTHER -> Fail(os)
DoMake(os, n) == IF n < 0 \/ n > 100000 THEN Fail(os) ELSE New(os, Buf(Zeros(n), FALSE))
DoBufOf(os, o) == IF os[o].k # "view" THEN Fail(os) ELSE Res(os, <<"is", os[o].b>>)
Do(os, op) ==
  CASE op[1] = "ref" -> DoRef(os, op[2], op[3])
    [] op[1] = "set" -> DoSet(os, op[2], op[3], op[4])
    [] op[1] = "view" -> DoView(os, op[2], Types[op[3]], op[4])
    [] op[1] = "copy" -> DoCopy(os, op[2], op[3], op[4], op[5])
    [] op[1] = "cut" -> DoCut(os, op[2], op[3], op[4])
    [] op[1] = "clone" -> DoClone(os, op[2], op[3])
    [] op[1] = "grow" -> DoGrow(os, op[2], op[3])
    [] op[1] = "str" -> DoStr(os, op[2], op[3], op[4])
    [] op[1] = "text" -> DoText(os, op[2])
    [] op[1] = "make" -> DoMake(os, op[2])
    [] op[1] = "bufof" -> DoBufOf(os, op[2])

(* ----------------------------------------------------------- behaviours --- *)
Pattern(n, k) == [i \in 1..n |-> (i * 37 + k * 91 + 100) % 256]
Lengths == {0, 1, 3, 8, 9}
Start(n, imm) == <<Buf(Pattern(n, 1), imm), Str(Pattern(n, 2)), Buf(Pattern(4, 3), FALSE)>>
Idx(n) == {-1, 0, 1, n - 1, n, n + 1} \cup Big \cup Small
Offs(n) == {-1, 0, 1, n - 1, n, n + 1, 1000001, -1000000}
Makers(os) ==
  {<<"view", o, t, imm>> : o \in {1}, t \in 1..9, imm \in {0, 1, Absent}}
  \cup {<<"view", o, t, Absent>> : o \in {3}, t \in 1..9}
  \cup {<<"cut", o, 1, e>> : o \in {1, 2}, e \in {Absent, 2}} \cup {<<"clone", o, i>> : o \in {1, 2}, i \in {0, 1, Absent}}
  \cup {<<"grow", 1, Size(os[1]) + 3>>, <<"str", 1, Absent, Absent>>, <<"text", 1>>, <<"make", 2>>, <<"set", 1, 0, 4>>}
(* the full alphabet, for the last step; n is the newest object, the others are covered by being last themselves *)
Full(os) ==
  LET n == Len(os)  O == {1, 2, n}  S(o) == Size(os[o]) IN
  UNION {{<<"ref", o, i>> : i \in Idx(S(o))} : o \in O}
  \cup UNION {{<<"set", o, i, 4>> : i \in Idx(S(o))} : o \in O}
  \cup UNION {{<<"set", o, i, v>> : i \in {0, S(o) - 1}, v \in 1..Len(Vals)} : o \in {1, n}}
  \cup {<<"set", 2, 0, v>> : v \in {2, 5}}
  \cup UNION {{<<"copy", o, s, a, l>> : a \in {0, 1, S(o) - 1, S(o)}, l \in {Absent, 0, 1, S(s)}} : o \in {1, 3}, s \in {1, 2, n}}
  \cup UNION {{<<"copy", 1, s, a, l>> : a \in Offs(S(1)), l \in Offs(S(s))} : s \in {3}}
  \cup UNION {{<<"cut", o, a, e>> : a \in Offs(S(o)), e \in {Absent, Nil, S(o)}} : o \in {1, n}}
  \cup UNION {{<<"cut", o, a, e>> : a \in {0, 1, S(o)}, e \in Offs(S(o))} : o \in {1, 2, n}}
  \cup UNION {{<<"str", o, l, a>> : l \in Offs(S(o)) \cup {Absent, Nil}, a \in {Absent, 0, 1, S(o)}} : o \in {1, n}}
  \cup UNION {{<<"str", o, l, a>> : l \in {Nil, S(o)}, a \in Offs(S(o))} : o \in {1, n}}
  \cup {<<"clone", o, i>> : o \in O, i \in {0, 1, Absent}}
  \cup UNION {{<<"grow", o, m>> : m \in Offs(S(o)) \cup Big \cup {S(o) + 300}} : o \in O}
  \cup {<<"view", o, t, i>> : o \in {1, n}, t \in {1, 4, 9}, i \in {0, 1, Absent}}
  \cup {<<"make", m>> : m \in {-1, 0, 5} \cup Big \cup Small}
  \cup {<<k, o>> : k \in {"bufof", "text"}, o \in O}

Step(op) == LET r == Do(st.os, op) IN [st EXCEPT !.os = r.os, !.ops = Append(@, op), !.rs = Append(@, r.r)]
Init == st \in {[n |-> n, imm |-> imm, os |-> Start(n, imm), ops |-> <<>>, rs |-> <<>>, done |-> FALSE] : n \in Lengths, imm \in BOOLEAN}
Next == /\ ~st.done
        /\ \/ Len(st.ops) < DEPTH - 1 /\ \E op \in Makers(st.os) : st' = Step(op)
           \/ \E op \in Full(st.os) : st' = [Step(op) EXCEPT !.done = TRUE]
(* random histories *)
Pick(os) == LET o == RandomElement(DOMAIN os)  i == RandomElement(IF RandomElement(1..6) = 1 THEN Idx(Size(os[o])) ELSE 0..Max(0, Size(os[o]) - 1))
                x == RandomElement(DOMAIN os)  v == RandomElement(1..Len(Vals)) IN
  RandomElement({<<"ref", o, i>>, <<"set", o, i, v>>, <<"set", o, i, v>>, <<"set", x, i, v>>, <<"copy", o, x, i, RandomElement(0..3)>>, <<"copy", o, x, 0, Absent>>} \cup
    (IF Len(os) > 8 THEN {<<"bufof", o>>, <<"ref", x, i>>, <<"text", 2>>}
     ELSE {<<"view", o, RandomElement(1..9), RandomElement({0, 1, Absent, Absent})>>, <<"view", x, RandomElement(1..9), Absent>>,
           <<"cut", o, i, Size(os[o]) - RandomElement(0..2)>>, <<"clone", o, RandomElement({0, 1, Absent})>>, <<"str", o, Absent, i>>, <<"text", o>>,
           <<"grow", o, Size(os[o]) + RandomElement(0..5)>>, <<"make", RandomElement(0..9)>>}))
SimInit == st = [n |-> 8, imm |-> FALSE, os |-> Start(8, FALSE), ops |-> <<>>, rs |-> <<>>, done |-> FALSE]
SimNext == /\ ~st.done
           /\ \E op \in {Pick(st.os)} : st' = [Step(op) EXCEPT !.done = (Len(st.ops) = DEPTH - 1)]

(* ---------------------------------------------------------- invariants --- *)
(* errors change nothing, immutable objects keep their bytes, nothing but growing changes a length *)
ByteOK == \A o \in DOMAIN st.os : \A i \in DOMAIN st.os[o].d : st.os[o].d[i] \in 0..255
ViewOK == \A o \in DOMAIN st.os : st.os[o].k = "view" => st.os[o].n * W(st.os[o].t) <= Len(st.os[st.os[o].b].d)
Frozen == [][\A o \in DOMAIN st.os : st.os[o].imm /\ st.os[o].k # "view" => st'.os[o] = st.os[o]]_st
ErrKeeps == [][st'.ops # st.ops /\ st'.rs[Len(st'.rs)] = <<"err">> => st'.os = st.os]_st
Kept == [][\A o \in DOMAIN st.os : st.os[o].k = "buf" => Len(st'.os[o].d) >= Len(st.os[o].d)]_st

Dump(os) == [o \in DOMAIN os |-> IF os[o].k = "view" THEN [k |-> "view", imm |-> os[o].imm, t |-> os[o].t, d |-> [i \in 1..os[o].n |-> Read(os[o].t, Elem(os, os[o], i - 1))]]
                                 ELSE [k |-> os[o].k, imm |-> os[o].imm, t |-> "", d |-> os[o].d]]
Emit == st.done => PrintT("@" \o ToJson([n |-> st.n, imm |-> st.imm, start |-> Start(st.n, st.imm), ops |-> st.ops, rs |-> st.rs, os |-> Dump(st.os)]))
===============================================================================
