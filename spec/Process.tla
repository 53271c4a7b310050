-------------------------------- MODULE Process --------------------------------
(* A run of the interpreter as a process: what a program sees of its command   *)
(* line, environment, standard input, directory and child processes, and what  *)
(* the outside sees of it: the bytes on both output streams, in order, and the *)
(* exit code.  Text is a sequence of pieces:   *)
(* <<pool, i>>, <<"in", from, n>> of the input, or <<"l", bytes>>.             *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS LEN
VARIABLES w,    \* the world: argv, environment, standard input, whether the streams are one
          s     \* what happened: parsed command line, input position, directory, output, notes, log, exit code

Ramp(n, k) == [i \in 1..n |-> 33 + ((i * k) % 90)]
(* arguments of the program; none of them contains a zero *)
ArgText == << <<>>, <<97>>, <<45, 120>>, <<45, 45, 102, 111, 111>>, <<32, 34, 92, 39>>, <<195, 164, 10, 9, 13>>, Ramp(300, 7), <<255, 1, 127>>, <<102, 46, 110, 117, 106>> >>
(* environment: names, in the order of the pool, and what they may be bound to *)
Names == << <<65>>, <<97, 98>>, <<86, 95, 49>>, Ramp(0, 1) \o [i \in 1..64 |-> 65 + (i % 26)], [i \in 1..64 |-> IF i = 64 THEN 95 ELSE 65 + (i % 26)], [i \in 1..93 |-> 97 + (i % 26)], <<119, 46, 100, 45, 49>>, <<90>> >>
Values == << <<>>, <<49>>, <<61>>, <<97, 61, 98, 61>>, <<32, 10, 34>>, <<195, 164, 255>>, Ramp(5000, 11) >>
Inputs == << <<>>, <<97>>, <<97, 98, 10, 99, 100>>, <<10, 10>>, <<120, 13, 10, 121, 10>>, Ramp(300, 7) \o <<10>> \o Ramp(127, 3) \o <<10>> \o Ramp(128, 5), <<0, 255, 10, 0, 26, 4, 128>>, Ramp(5000, 13) >>
Texts == << <<>>, <<104, 105>>, Ramp(17, 5), [i \in 1..300 |-> 97 + (i % 26)], <<97, 32, 98>> >>
Bytes == << <<0>>, <<0, 255, 10, 13, 128, 0>>, Ramp(5000, 17), <<195>> >>
Codes == {0, 1, 3, 127, 128, 255, 256, 257, 1000, -1}
Lit(b) == <<<<"l", b>>>>
Arg(i) == <<<<"arg", i>>>>
Val(i) == <<<<"val", i>>>>
Text(i) == <<<<"text", i>>>>
Raw(i) == <<<<"raw", i>>>>
From(p, n) == <<<<"in", p, n>>>>
CrLf == Lit(<<13, 10>>)
Digits(b) == Lit(<<48 + b>>)
ASSUME PrintT("@" \o ToJson([pools |-> [arg |-> ArgText, name |-> Names, val |-> Values, inp |-> Inputs, text |-> Texts, raw |-> Bytes]]))

(* --------------------------------------------------------- command line --- *)
(* tokens: "x" evaluate the next one, "expr" with what it prints and how it ends, "long" and "short"   *)
(* options, "image" and "file" (an image to start from), "script", "arg"                                *)
Tok(t, n, o) == [t |-> t, n |-> n, o |-> o]
(* the image option counts wherever it stands, with what follows it; the runtime looks from the end *)
Images(a) == {i \in DOMAIN a : a[i].t = "image"}
Bad(a) == IF Len(a) \in Images(a) THEN 125 ELSE IF Cardinality(Images(a)) > 1 THEN 124 ELSE 0
Strip(a) == SelectSeq([i \in DOMAIN a |-> IF i \in Images(a) \/ (i - 1) \in Images(a) THEN Tok("gone", 0, "") ELSE a[i]], LAMBDA x : x.t # "gone")
(* left to right: expressions are evaluated at once, options noted, a script ends it *)
P0 == [ev |-> FALSE, opts |-> {}, out |-> <<>>, code |-> -1, args |-> <<>>, script |-> FALSE]
RECURSIVE Parse(_, _)
Parse(a, p) ==
  IF a = <<>> \/ p.code >= 0 \/ p.script THEN p
  ELSE LET h == a[1]  r == Tail(a) IN
       CASE p.ev -> LET q == [p EXCEPT !.ev = FALSE, !.out = @ \o <<<<1, Digits(h.n)>>>> \o (IF h.o = "fail" THEN <<<<0, <<>>>>>> ELSE <<>>)] IN
                    Parse(r, IF h.o = "exit" THEN [q EXCEPT !.code = h.n] ELSE q)
         [] h.t = "x" -> Parse(r, [p EXCEPT !.ev = TRUE])
         [] h.t = "long" -> Parse(r, [p EXCEPT !.opts = @ \cup {h.o}])
         [] h.t = "short" -> Parse(r, [p EXCEPT !.opts = @ \cup {h.o, "q"}])   \* two letters at once
         [] h.t = "script" -> [p EXCEPT !.args = r, !.script = h.o \in {"", "deep"}, !.code = CASE h.o \in {"", "deep"} -> -1 [] h.o = "empty" -> 0 [] OTHER -> 1,
                                        !.out = IF h.o \in {"missing", "broken", "fails"} THEN Append(@, <<0, <<>>>>) ELSE @]
Cmd(a) == IF Bad(a) > 0 THEN [P0 EXCEPT !.code = Bad(a)] ELSE Parse(Strip(a), P0)

Expr(n, o) == <<Tok("x", 0, ""), Tok("expr", n, o)>>
Img == <<Tok("image", 0, ""), Tok("file", 0, "")>>
Pre == { <<>>, <<Tok("long", 0, "foo")>>, <<Tok("short", 0, "a"), Tok("long", 0, "bar")>>, Expr(1, "ok"), Expr(1, "ok") \o Expr(2, "ok"), Expr(1, "fail") \o Expr(2, "ok"),
         Expr(1, "fail"), Expr(3, "exit"), Expr(1, "ok") \o <<Tok("short", 0, "b")>> \o Expr(4, "exit"), Img, Expr(5, "ok") \o Img \o <<Tok("long", 0, "foo")>> }
A(i) == Tok("arg", i, "")
Post == { <<>>, <<A(2)>>, <<A(1)>>, <<A(3), A(4), A(2)>>, <<A(5), A(6), A(8)>>, <<A(7), A(1), A(9)>>, Img \o <<A(3)>>, <<A(2)>> \o Img, <<A(2), Tok("image", 0, "")>> }
Script == <<Tok("script", 0, "")>>
(* a script that is not there, cannot be read, fails while it is loaded, does nothing *)
OddScripts == {<<Tok("script", 0, o)>> : o \in {"missing", "broken", "fails", "empty"}}

(* -------------------------------------------------------------- program --- *)
S0(a) == LET p == Cmd(a) IN [p |-> p, pos |-> 0, eof |-> FALSE, cd |-> <<>>, conns |-> <<>>, out |-> p.out, log |-> <<>>, code |-> IF p.code >= 0 THEN p.code % 256 ELSE IF p.script THEN -1 ELSE 0]
Live == s.code < 0 /\ Len(s.log) < LEN
Op(o, x, r) == s' = [s EXCEPT !.log = Append(@, [o |-> o, x |-> x, r |-> r])]
Nothing == <<"n">>
Txt(b) == <<"s", b>>
Num(n) == <<"i", n>>
Env == w.env                       \* the entries <<name, value>>, as indices; 0 for an entry that is no pair
Bound(n) == {i \in DOMAIN Env : Env[i][1] = n}
Args == Op("args", <<>>, <<"l", [i \in DOMAIN s.p.args |-> IF s.p.args[i].t = "arg" THEN Txt(Arg(s.p.args[i].n)) ELSE <<"any">>]>>)
Opts == \E o \in {"foo", "a", "b", "q", "bar"} : Op("opt", <<o>>, <<"b", o \in s.p.opts>>)
EnvGet(n) == Op("env", <<n>>, IF Bound(n) = {} THEN Nothing ELSE Txt(Val(Env[CHOOSE i \in Bound(n) : TRUE][2])))
EnvHas(n) == Op("envhas", <<n>>, <<"b", Bound(n) # {}>>)
EnvCount == Op("envcount", <<>>, Num(Cardinality({Env[i][1] : i \in {j \in DOMAIN Env : Env[j][1] > 0}}) + w.many))
EnvMany(k) == Op("envmany", <<k>>, IF k > 0 /\ k <= w.many THEN Num(k) ELSE Nothing)
(* standard input *)
Inp == Inputs[w.inp]
Left == IF s.eof THEN <<>> ELSE SubSeq(Inp, s.pos + 1, Len(Inp))
Min(a, b) == IF a < b THEN a ELSE b
Next1(n) == Txt(From(s.pos, Min(n, Len(Left))))
Got(o, x, r, n) == s' = [s EXCEPT !.log = Append(@, [o |-> o, x |-> x, r |-> r]), !.pos = @ + Min(n, Len(Left)), !.eof = @ \/ Len(Left) < n]
LineEnd == IF \E k \in DOMAIN Left : Left[k] = 10 THEN CHOOSE k \in DOMAIN Left : Left[k] = 10 /\ \A l \in 1..(k - 1) : Left[l] # 10 ELSE 0
ReadLine(o) == Got(o, <<>>, IF LineEnd > 0 THEN Next1(LineEnd - 1) ELSE IF Left = <<>> THEN Nothing ELSE Next1(Len(Left)), IF LineEnd > 0 THEN LineEnd ELSE Len(Left) + 1)
CharRead == Got("char", <<>>, IF Left = <<>> THEN <<"k", "end-of-file">> ELSE Num(Left[1]), 1)
Block(n) == Got("block", <<n>>, IF s.eof THEN <<"k", "end-of-file">> ELSE Next1(n), n)
(* output: as it is printed, byte for byte; stream 1 or 2 *)
Shown(k, b) == CASE k \in {"print", "error", "raw", "block"} -> b [] k \in {"println", "errorln"} -> b \o CrLf [] k = "write" -> Lit(<<34>>) \o b \o Lit(<<34>>) [] k = "newline" -> CrLf
Put(k, f, b) == s' = [s EXCEPT !.log = Append(@, [o |-> "put", x |-> <<k, f, b>>, r |-> Nothing]), !.out = Append(@, <<f, Shown(k, b)>>)]
(* child processes: their output and exit code; their errors go where ours go *)
Child(b, c) == Op("child", <<b, c>>, <<"po", c, b>>)
ChildErr(b, c) == s' = [s EXCEPT !.log = Append(@, [o |-> "childerr", x |-> <<b, c>>, r |-> <<"po", c, <<>>>>]), !.out = Append(@, <<2, b>>)]
ChildEnv(n) == n <= 3 /\ Op("childenv", <<n>>, <<"po", 0, IF Bound(n) = {} THEN <<>> ELSE Val(Env[CHOOSE i \in Bound(n) : TRUE][2])>>)
(* a child that is the interpreter again *)
ChildSelf(c, b) == Op("childself", <<c, b>>, <<"po", c, b \o CrLf>>)
(* directories: d, d/e and back; a fifo f and a file g of 5 bytes are in the first *)
Dirs == {<<>>, <<"d">>, <<"d", "e">>}
Cd(x) == LET t == IF x = ".." THEN (IF s.cd = <<>> THEN <<"up">> ELSE SubSeq(s.cd, 1, Len(s.cd) - 1)) ELSE Append(s.cd, x)
             ok == t \in Dirs IN
         /\ t # <<"up">>
         /\ s' = [s EXCEPT !.log = Append(@, [o |-> "cd", x |-> <<x>>, r |-> <<"b", ok>>]), !.cd = IF ok THEN t ELSE @]
Cwd == Op("cwd", <<>>, <<"d", s.cd>>)
ChildCwd == Op("childcwd", <<>>, <<"d", s.cd>>)
(* error number (of the system) or kind and size *)
Stat(x) == Op("stat", <<x>>, CASE x = "null" -> <<"st", 0, "character-device?", 0>>
                             [] x = "f" /\ s.cd = <<>> -> <<"st", 0, "named-pipe?", 0>>
                             [] x = "g" /\ s.cd = <<>> -> <<"st", 0, "regular-file?", 5>>
                             [] x \in {"d", "e"} /\ Append(s.cd, x) \in Dirs -> <<"st", 0, "directory?", -1>>
                             [] x = "g/h" /\ s.cd = <<>> -> <<"st", 20, "", 0>>
                             [] OTHER -> <<"st", 2, "", 0>>)
(* connections: to a peer that sends everything back, one that sends 8 bytes and closes, and to nobody; *)
(* .in is what has arrived and was not read yet, .more whether the peer goes on *)
Sent == Inputs[7]
Connect(m) == s' = [s EXCEPT !.log = Append(@, [o |-> "connect", x |-> <<m, Len(s.conns) + 1>>, r |-> <<"b", m # "nobody">>]),
                             !.conns = IF m = "nobody" THEN @ ELSE Append(@, [in |-> IF m = "source" THEN Sent ELSE <<>>, more |-> m = "echo", open |-> TRUE])]
BadConnect(p) == Op("badconnect", <<p>>, <<"k", IF p = "host" THEN "type-error" ELSE "error">>)
(* what is done a hundred times, with few descriptors, still works *)
Repeat(k) == Op("repeat", <<k>>, <<"b", k # "nobody">>)
OpenConns == {i \in DOMAIN s.conns : s.conns[i].open}
SockWrite(i, b, k) == /\ s.conns[i].more
                      /\ s' = [s EXCEPT !.log = Append(@, [o |-> "sockwrite", x |-> <<i, b, k>>, r |-> Nothing]), !.conns[i].in = @ \o (IF b[1][1] = "raw" THEN Bytes[b[1][2]] ELSE Texts[b[1][2]])]
(* more than has arrived can only be asked for at the end *)
SockRead(i, n) == /\ (n <= Len(s.conns[i].in) \/ ~s.conns[i].more) = TRUE
                  /\ LET got == SubSeq(s.conns[i].in, 1, n) IN
                     s' = [s EXCEPT !.log = Append(@, [o |-> "sockread", x |-> <<i, n>>, r |-> Txt(Lit(IF n > Len(s.conns[i].in) THEN s.conns[i].in ELSE got))]),
                                    !.conns[i].in = IF n >= Len(@) THEN <<>> ELSE SubSeq(@, n + 1, Len(@))]
SockClose(i) == s' = [s EXCEPT !.log = Append(@, [o |-> "sockclose", x |-> <<i>>, r |-> Nothing]), !.conns[i].open = FALSE]
ReadClosed(i) == Op("readclosed", <<i>>, <<"k", "io-error">>)
SockOps(i) == \/ \E b \in {Text(2), Text(3), Raw(2)} : \E k \in BOOLEAN : SockWrite(i, b, k)
              \/ \E n \in {1, 5, 8, 20} : SockRead(i, n)
              \/ SockClose(i)
SockStep == \/ (Len(s.conns) < 2 /\ \E m \in {"echo", "source", "nobody"} : Connect(m))
            \/ (\E i \in OpenConns : SockOps(i))
            \/ (\E i \in DOMAIN s.conns : ~s.conns[i].open /\ ReadClosed(i))
NoInt == 5000   \* stands for something that is no number
Exit(n) == s' = [s EXCEPT !.log = Append(@, [o |-> "exit", x |-> <<n>>, r |-> Nothing]), !.code = IF n = NoInt THEN 0 ELSE n % 256]
(* not caught: something is printed, and the run has failed *)
Throw(k) == s' = [s EXCEPT !.log = Append(@, [o |-> "throw", x |-> <<k>>, r |-> Nothing]), !.out = Append(@, <<0, <<>>>>), !.code = 1]
Clock == Op("time", <<>>, <<"now">>)    \* the milliseconds that pass while a child waits for 50
Caught(k) == Op("caught", <<k>>, <<"k", "caught">>)

Next == /\ Live /\ UNCHANGED w
        /\ \/ Args \/ Opts \/ EnvCount \/ Clock \/ Cwd \/ ChildCwd \/ CharRead
           \/ \E n \in DOMAIN Names : EnvGet(n) \/ EnvHas(n) \/ ChildEnv(n)
           \/ \E k \in {1, w.many, w.many + 1} : EnvMany(k)
           \/ \E o \in {"line", "readline"} : ReadLine(o)
           \/ \E n \in {0, 1, 4, 128, 6000} : Block(n)
           \/ \E k \in {"print", "error", "println", "errorln", "write"} : \E f \in {1, 2} : \E i \in DOMAIN Texts : (k = "errorln" => f = 2) /\ Put(k, f, Text(i))
           \/ \E k \in {"raw", "block"} : \E f \in {1, 2} : \E i \in DOMAIN Bytes : Put(k, f, Raw(i))
           \/ \E f \in {1, 2} : Put("newline", f, <<>>)
           \/ \E i \in DOMAIN Texts : \E c \in {0, 1, 7, 255} : Child(Text(i), c) \/ ChildErr(Text(i), c)
           \/ \E i \in DOMAIN Bytes : \E c \in {0, 128} : Child(Raw(i), c)
           \/ \E i \in {1, 2, 5} : \E c \in {0, 9} : ChildSelf(c, Text(i))
           \/ \E x \in {"d", "e", "..", "missing"} : Cd(x)
           \/ \E x \in {"d", "e", "f", "g", "g/h", "missing", "null"} : Stat(x)
           \/ \E n \in Codes \cup {NoInt} : Exit(n)
           \/ \E k \in 1..4 : Throw(k) \/ Caught(k)
(* the simulator weighs the actions by hand: those that end the run are rare *)
SimNext == /\ Live /\ UNCHANGED w
           /\ \E r \in {[k |-> RandomElement(IF s.code < 0 THEN 1..24 ELSE {}), i |-> RandomElement(IF s.code < 0 THEN 1..4 ELSE {}), n |-> RandomElement(IF s.code < 0 THEN 1..8 ELSE {})]} :
              \/ r.k = 1 /\ Args
              \/ r.k = 2 /\ Opts
              \/ r.k \in {3, 4} /\ EnvGet(r.n)
              \/ r.k = 5 /\ EnvHas(r.n)
              \/ r.k = 6 /\ ChildEnv(r.n)
              \/ r.k = 7 /\ EnvMany(r.n * 37)
              \/ r.k = 8 /\ (IF r.n > 4 THEN Clock ELSE EnvCount)
              \/ r.k \in {9, 10} /\ ReadLine(IF r.i = 1 THEN "readline" ELSE "line")
              \/ r.k = 11 /\ CharRead
              \/ r.k \in {12, 13} /\ Block(<<1, 4, 127, 129>>[r.i])
              \/ r.k \in {14, 15} /\ Put(<<"print", "error", "println", "write">>[r.i], 1 + (r.n % 2), Text(1 + (r.n % 5)))
              \/ r.k = 16 /\ Put(<<"raw", "block">>[1 + (r.i % 2)], 1 + (r.n % 2), Raw(r.i))
              \/ r.k = 17 /\ Put("errorln", 2, Text(r.i))
              \/ r.k = 18 /\ Child(IF r.n > 4 THEN Raw(r.i) ELSE Text(r.i), r.n)
              \/ r.k = 19 /\ ChildErr(Text(r.i), r.n)
              \/ r.k = 20 /\ Cd(<<"d", "e", "..", "missing">>[r.i])
              \/ r.k = 21 /\ (IF r.n % 2 = 0 THEN Cwd ELSE ChildCwd)
              \/ r.k = 22 /\ Stat(<<"d", "e", "f", "g", "g/h", "missing", "null", "d">>[r.n])
              \/ r.k = 23 /\ Caught(r.i)
              \/ r.k = 24 /\ (IF r.n > 4 THEN ChildSelf(r.i, Text(2)) ELSE IF r.n > 2 THEN Exit(r.i) ELSE IF r.n = 2 THEN Throw(r.i) ELSE Caught(r.i))

(* -------------------------------------------------------------- worlds ---- *)
Envs == { <<>>, <<<<1, 2>>>>, <<<<2, 1>>, <<1, 4>>>>, <<<<3, 5>>, <<4, 2>>, <<5, 3>>, <<6, 6>>>>, <<<<0, 1>>, <<7, 7>>, <<0, 2>>>>, <<<<8, 3>>, <<1, 6>>, <<2, 5>>, <<3, 1>>>> }
World(pre, post, e, m, i, j) == [argv |-> pre \o Script \o post, env |-> e, many |-> m, inp |-> i, one |-> j]
Init1(x) == w = x /\ s = S0(x.argv)
(* the plain worlds: each part varied on its own *)
Init == \E pre \in {<<>>} : \E i \in DOMAIN Inputs : \E e \in Envs : (i = 3 \/ e = <<<<1, 2>>>>) /\ Init1(World(pre, <<A(2)>>, e, IF i = 4 THEN 300 ELSE 0, i, i % 2 = 0))
(* command lines: all of them, with or without a script *)
OddInit == \E sc \in OddScripts : \E pre \in Pre : \E post \in {<<>>, <<A(2), A(9)>>, Img} : Init1([World(pre, post, <<>>, 0, 3, TRUE) EXCEPT !.argv = pre \o sc \o post])
(* the script lies in the inner directory, the path of which is long *)
DeepInit == \E x \in {World(<<>>, <<A(2)>>, <<>>, 0, 1, TRUE)} : Init1([x EXCEPT !.argv = <<Tok("script", 0, "deep"), A(2)>>])
DeepNext == Live /\ UNCHANGED w /\ Args
CmdInit == \E pre \in Pre : \E post \in Post : \E e \in {<<<<1, 2>>>>} : \E sc \in BOOLEAN :
             /\ sc \/ (\E i \in DOMAIN pre : pre[i].t = "x")
             /\ sc \/ post \in {<<>>, Img}
             /\ LET x == World(pre, post, e, 0, 3, TRUE) IN Init1(IF sc THEN x ELSE [x EXCEPT !.argv = pre \o post])
CmdNext == Live /\ UNCHANGED w /\ (Args \/ Opts)
(* short histories of one part, all of them: directories, and standard input *)
DirInit == \E x \in {World(<<>>, <<>>, <<>>, 0, 1, FALSE)} : Init1(x)
DirNext == Live /\ UNCHANGED w /\ (Cwd \/ ChildCwd \/ (\E x \in {"d", "e", "..", "missing"} : Cd(x)) \/ (\E x \in {"d", "e", "g"} : Stat(x)))
SockNext == Live /\ UNCHANGED w /\ (SockStep \/ (Len(s.log) = 0 /\ ((\E p \in {"-1", "65536", "host"} : BadConnect(p)) \/ (\E k \in {"nobody", "close", "ls", "popen", "slurp", "spit"} : Repeat(k)))))
InInit == \E i \in DOMAIN Inputs : \E x \in {World(<<>>, <<>>, <<>>, 0, i, i % 2 = 0)} : Init1(x)
InNext == Live /\ UNCHANGED w /\ (CharRead \/ (\E o \in {"line", "readline"} : ReadLine(o)) \/ (\E n \in {1, 4, 128} : Block(n)))
R(S) == RandomElement(S)
SimInit == \E k \in 1..40 : LET x == World(R({p \in Pre : Cmd(p \o Script).script /\ k > 0}), R({p \in Post : Bad(p) = 0 /\ k > 0}), R({e \in Envs : k > 0}), R({0, 0, 300} \cup {IF k > 0 THEN 37 ELSE 0}), R(1..(IF k > 0 THEN 8 ELSE 1)), R({TRUE, k < 0})) IN Bad(x.argv) = 0 /\ Init1(x)

(* ----------------------------------------------------------- invariants --- *)
(* nothing happens after the end; what was written stays written; input is taken in order *)
Ended == [][s.code < 0]_s
Appends == [][SubSeq(s'.out, 1, Len(s.out)) = s.out /\ s'.pos >= s.pos]_s
Sane == s.pos <= Len(Inp) /\ s.code \in -1..255 /\ s.cd \in Dirs
Emit == (s.code < 0 /\ Len(s.log) < LEN) \/ PrintT("@" \o ToJson([w |-> w, s |-> s]))
===============================================================================
