-------------------------------- MODULE Files ---------------------------------
(* Files, streams and ports.  Contents are ropes: sequences of <<s, f, n>>, n   *)
(* bytes of source s from its byte f on (source 0 is all zeros).                *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, SequencesExt

(* ------------------------------------------------------------- ropes ------ *)
Byte(s, i) == IF s = 0 THEN 0 ELSE IF s = 9 THEN 10 ELSE ((i * 7) + (s * 31) + ((i \div 256) * 3)) % 256
Piece(s, f, n) == IF n = 0 THEN <<>> ELSE <<<<s, f, n>>>>
RECURSIVE RLen(_), Take(_, _), Drop(_, _)
RLen(r) == IF r = <<>> THEN 0 ELSE r[1][3] + RLen(Tail(r))
Take(r, n) == IF r = <<>> \/ n <= 0 THEN <<>>
              ELSE IF r[1][3] <= n THEN <<r[1]>> \o Take(Tail(r), n - r[1][3]) ELSE <<<<r[1][1], r[1][2], n>>>>
Drop(r, n) == IF r = <<>> \/ n <= 0 THEN r
              ELSE IF r[1][3] <= n THEN Drop(Tail(r), n - r[1][3]) ELSE <<<<r[1][1], r[1][2] + n, r[1][3] - n>>>> \o Tail(r)
Slice(r, f, n) == Take(Drop(r, f), n)
(* d written over r at position p: what lies between the end and p is zero *)
Over(r, p, d) == Take(r, p) \o (IF p > RLen(r) /\ RLen(d) > 0 THEN Piece(0, 0, p - RLen(r)) ELSE <<>>) \o d \o Drop(r, p + RLen(d))
Bytes(r) == FlattenSeq([i \in DOMAIN r |-> [j \in 1..r[i][3] |-> Byte(r[i][1], r[i][2] + j - 1)]])

Above0(n) == IF n < 0 THEN 0 ELSE n

(* ------------------------------------------------------------- state ------ *)
(* fs: file contents by path; dir: whether there is the directory d; h: handles in the order of opening [p, m, a: raw or port, pos, eof, st: open, closed or broken, w: written to]; *)
(* sp: string ports [r, pos]; log: operations and what they give *)
CONSTANTS PATHS, SIZES, LEN, HANDLES
VARIABLES fs, dir, h, sp, log
vars == <<fs, dir, h, sp, log>>
Init == dir = FALSE /\ fs = [x \in {} |-> <<>>] /\ h = <<>> /\ sp = <<>> /\ log = <<>>

Op(o, i, x, res) == UNCHANGED dir /\ log' = Append(log, [o |-> o, i |-> i, x |-> x, r |-> res])
OkR == <<"ok">>
ErrR == <<"err">>
Num(n) == <<"i", n>>
Content(r) == <<"c", r>>
CanMake(p) == p # "d/a" \/ dir
Exists(p) == p \in DOMAIN fs
Live(i) == h[i].st = "open"
Users(p) == {i \in DOMAIN h : h[i].p = p /\ Live(i)}
Writers(p) == {i \in Users(p) : h[i].m # "in"}
Fresh(p) == fs' = (p :> <<>>) @@ fs
Handle(p, m, a) == [p |-> p, m |-> m, a |-> a, pos |-> 0, eof |-> FALSE, st |-> "open", w |-> FALSE]
Opened(p, m, a) == h' = Append(h, Handle(p, m, a))

OpenIn(p, a) == /\ Len(h) < HANDLES /\ Writers(p) = {}
                /\ IF Exists(p) THEN Opened(p, "in", a) /\ Op("open-in", Len(h) + 1, <<p, a>>, <<"h">>) ELSE UNCHANGED h /\ Op("open-in", 0, <<p, a>>, <<"n">>)
                /\ UNCHANGED <<fs, sp>>
(* mode: error (or none given), replace, append, or one that does not exist *)
OpenOut(p, mode, a) ==
  /\ Len(h) < HANDLES /\ Users(p) = {}
  /\ IF mode = "bogus" THEN UNCHANGED <<fs, h>> /\ Op("open-out", 0, <<p, mode, a>>, ErrR)
     ELSE IF mode \in {"error", "none"} /\ Exists(p) THEN UNCHANGED <<fs, h>> /\ Op("open-out", 0, <<p, mode, a>>, <<"no">>)
     ELSE IF ~CanMake(p) THEN UNCHANGED <<fs, h>> /\ Op("open-out", 0, <<p, mode, a>>, <<"n">>)
     ELSE /\ (IF mode = "append" /\ Exists(p) THEN UNCHANGED fs ELSE Fresh(p))
          /\ Opened(p, IF mode = "append" THEN "app" ELSE "out", a)
          /\ Op("open-out", Len(h) + 1, <<p, mode, a>>, <<"h">>)
  /\ UNCHANGED sp

Broken(i) == h' = [h EXCEPT ![i].st = "broken"]
(* the piece <<s, f, n>> as a string, buffer or view; sz bytes of it from offset off, all of it with sz = -1 *)
PutAt(i) == IF h[i].m = "app" THEN RLen(fs[h[i].p]) ELSE h[i].pos
Put(i, d) == LET at == PutAt(i) IN /\ fs' = [fs EXCEPT ![h[i].p] = Over(@, at, d)]
                                   /\ h' = IF RLen(d) = 0 THEN h ELSE [h EXCEPT ![i].pos = at + RLen(d), ![i].w = TRUE]
Write(i, s, f, n, kind, sz, off) ==
  /\ h[i].m # "in" \/ ~Live(i)
  /\ LET bad == ~Live(i) \/ off < 0 \/ off > n \/ (sz >= 0 /\ n - off < sz)
         d == Piece(s, f + off, IF sz < 0 THEN n - off ELSE sz) IN
     /\ Op("write", i, <<s, f, n, kind, sz, off>>, IF bad THEN ErrR ELSE OkR)
     /\ IF bad THEN UNCHANGED <<fs, h>> ELSE Put(i, d)
  /\ UNCHANGED sp
CharWrite(i, b) == /\ h[i].a = "port" /\ h[i].m # "in"
                   /\ Op("char-write", i, <<b>>, IF Live(i) THEN OkR ELSE ErrR)
                   /\ IF Live(i) THEN Put(i, Piece(b[1], b[2], 1)) ELSE UNCHANGED <<fs, h>>
                   /\ UNCHANGED sp
(* what the stream has from its position on *)
Rest(i) == IF h[i].eof THEN <<>> ELSE Drop(fs[h[i].p], h[i].pos)
Got(i, n) == LET d == Take(Rest(i), n) IN h' = [h EXCEPT ![i].pos = @ + RLen(d), ![i].eof = @ \/ RLen(d) < n]
(* into a buffer of bs bytes, from offset off on *)
Read(i, n, bs, off) ==
  /\ h[i].m = "in"
  /\ LET bad == ~Live(i) \/ n < 0 \/ off < 0 \/ off > bs \/ bs - off < n
         d == Take(Rest(i), n) IN
     /\ Op("read", i, <<n, bs, off>>, IF bad THEN ErrR ELSE IF h[i].a = "port" /\ h[i].eof THEN <<"eof">> ELSE <<"rd", RLen(d), d>>)
     /\ IF bad THEN UNCHANGED h ELSE Got(i, n)
  /\ UNCHANGED <<fs, sp>>
(* bytes that never change (six of the first pattern, as kind k) are no place to read into *)
ReadFixed(i, k) == /\ h[i].m = "in" /\ Op("read-fixed", i, <<k>>, <<"rf", Piece(1, 0, 6)>>) /\ UNCHANGED <<fs, h, sp>>
CharRead(i) == /\ h[i].m = "in" /\ h[i].a = "port"
               /\ Op("char-read", i, <<>>, IF ~Live(i) THEN ErrR ELSE LET d == Take(Rest(i), 1) IN IF d = <<>> THEN <<"eof">> ELSE Num(Byte(d[1][1], d[1][2])))
               /\ IF Live(i) THEN Got(i, 1) ELSE UNCHANGED h
               /\ UNCHANGED <<fs, sp>>
LineEnd(b) == IF \E k \in DOMAIN b : b[k] = 10 THEN CHOOSE k \in DOMAIN b : b[k] = 10 /\ \A l \in 1..(k - 1) : b[l] # 10 ELSE 0
ReadLine(i) == /\ h[i].m = "in" /\ h[i].a = "port" /\ Live(i) /\ RLen(fs[h[i].p]) < 1500
               /\ LET d == Rest(i)  k == LineEnd(Bytes(d)) IN
                  /\ Op("read-line", i, <<>>, IF k > 0 THEN Content(Take(d, k - 1)) ELSE IF d = <<>> THEN <<"n">> ELSE Content(d))
                  /\ Got(i, IF k > 0 THEN k ELSE RLen(d) + 1)
               /\ UNCHANGED <<fs, sp>>
(* reading from a stream for output is an error, and the other way round *)
WrongWay(i) == /\ Live(i) /\ h[i].a = "raw"
               /\ Op(IF h[i].m = "in" THEN "write-in" ELSE "read-out", i, <<>>, ErrR)
               /\ Broken(i) /\ UNCHANGED <<fs, sp>>
Seek(i, n, whence) ==
  /\ ~(h[i].m = "app" /\ whence = 1 /\ ~h[i].w)
  /\ h[i].a = "port" => whence = 0
  /\ LET base == IF whence = 0 THEN 0 ELSE IF whence = 1 THEN h[i].pos ELSE RLen(fs[h[i].p])
         bad == ~Live(i) \/ whence > 2 \/ (whence <= 2 /\ base + n < 0) IN
     /\ Op("seek", i, <<n, whence>>, IF bad THEN ErrR ELSE OkR)
     /\ IF bad THEN UNCHANGED h ELSE h' = [h EXCEPT ![i].pos = base + n, ![i].eof = FALSE, ![i].w = TRUE]
  /\ UNCHANGED <<fs, sp>>
Tell(i) == /\ (h[i].m # "app" \/ h[i].w)
           /\ Op("tell", i, <<>>, IF Live(i) THEN Num(h[i].pos) ELSE ErrR) /\ UNCHANGED <<fs, h, sp>>
Eof(i) == h[i].a = "raw" /\ Op("eof", i, <<>>, IF Live(i) THEN <<"b", h[i].eof>> ELSE ErrR) /\ UNCHANGED <<fs, h, sp>>
Flush(i) == h[i].m # "in" /\ Op("flush", i, <<>>, IF Live(i) THEN OkR ELSE ErrR) /\ UNCHANGED <<fs, h, sp>>
Close(i) == /\ Op("close", i, <<>>, IF h[i].st = "closed" THEN ErrR ELSE OkR)
            /\ h' = [h EXCEPT ![i].st = "closed"] /\ UNCHANGED <<fs, sp>>
(* whole files; an open stream has to be flushed first *)
Flushed(p) == Writers(p) = {} \/ (log # <<>> /\ log[Len(log)].o = "flush" /\ log[Len(log)].i \in Writers(p))
Spit(p, s, f, n, kind) == /\ Users(p) = {} /\ Op("spit", 0, <<p, s, f, n, kind>>, <<"b", CanMake(p)>>)
                          /\ fs' = (IF CanMake(p) THEN (p :> Piece(s, f, n)) @@ fs ELSE fs) /\ UNCHANGED <<h, sp>>
SpitBad(p) == /\ Users(p) = {} /\ Op("spit-bad", 0, <<p>>, <<"b", FALSE>>) /\ (IF CanMake(p) THEN Fresh(p) ELSE UNCHANGED fs) /\ UNCHANGED <<h, sp>>
Slurp(p) == /\ Flushed(p) /\ Op("slurp", 0, <<p>>, IF Exists(p) THEN Content(fs[p]) ELSE <<"n">>) /\ UNCHANGED <<fs, h, sp>>
Size(p) == /\ Flushed(p) /\ Op("size", 0, <<p>>, IF Exists(p) THEN Num(RLen(fs[p])) ELSE <<"n">>) /\ UNCHANGED <<fs, h, sp>>
Erase(p) == /\ Users(p) = {} /\ Op("rm", 0, <<p>>, OkR) /\ fs' = [q \in DOMAIN fs \ {p} |-> fs[q]] /\ UNCHANGED <<h, sp>>
Copy(p, q) == /\ p # q /\ Users(p) = {} /\ Users(q) = {} /\ Op("copy", 0, <<p, q>>, <<"b", Exists(p) /\ CanMake(q)>>)
              /\ fs' = (IF Exists(p) /\ CanMake(q) THEN (q :> fs[p]) @@ fs ELSE fs) /\ UNCHANGED <<h, sp>>
(* the output of another program, and its exit code *)
Popen(p, code) == /\ Exists(p) /\ Flushed(p) /\ Op("popen", 0, <<p, code>>, <<"po", code, fs[p]>>) /\ UNCHANGED <<fs, h, sp>>
Listing == /\ \A p \in PATHS : Users(p) = {}
           /\ Op("ls", 0, <<>>, <<"ls", {p \in DOMAIN fs : p # "d/a"} \cup (IF dir THEN {"d"} ELSE {}), "d/a" \in DOMAIN fs>>) /\ UNCHANGED <<fs, h, sp>>
Mkdir == log' = Append(log, [o |-> "mkdir", i |-> 0, x |-> <<>>, r |-> <<"b", ~dir>>]) /\ dir' = TRUE /\ UNCHANGED <<fs, h, sp>>
Rmdir == LET ok == dir /\ ~("d/a" \in DOMAIN fs) IN
         log' = Append(log, [o |-> "rmdir", i |-> 0, x |-> <<>>, r |-> <<"b", ok>>]) /\ dir' = (dir /\ ~ok) /\ UNCHANGED <<fs, h, sp>>

(* ports to strings: the string is what is in front of the position *)
NewStr == /\ Len(sp) < 2 /\ sp' = Append(sp, [r |-> <<>>, pos |-> 0]) /\ Op("new-str", Len(sp) + 1, <<>>, OkR) /\ UNCHANGED <<fs, h>>
StrPut(i, d) == sp' = [sp EXCEPT ![i] = [r |-> Over(@.r, @.pos, d), pos |-> @.pos + RLen(d)]]
StrWrite(i, s, f, n, kind, sz) ==
  /\ LET bad == sz > n IN
     /\ Op("str-write", i, <<s, f, n, kind, sz>>, IF bad THEN ErrR ELSE OkR)
     /\ IF bad THEN UNCHANGED sp ELSE StrPut(i, Piece(s, f, IF sz < 0 THEN n ELSE sz))
  /\ UNCHANGED <<fs, h>>
StrChar(i, b) == Op("str-char", i, <<b>>, OkR) /\ StrPut(i, Piece(b[1], b[2], 1)) /\ UNCHANGED <<fs, h>>
StrPos(i) == Op("str-pos", i, <<>>, Num(sp[i].pos)) /\ UNCHANGED <<fs, h, sp>>
StrSeek(i, n) == /\ n <= RLen(sp[i].r) /\ Op("str-seek", i, <<n>>, OkR) /\ sp' = [sp EXCEPT ![i].pos = Above0(n)] /\ UNCHANGED <<fs, h>>
StrGet(i) == Op("str-get", i, <<>>, Content(Take(sp[i].r, sp[i].pos))) /\ UNCHANGED <<fs, h, sp>>

(* ------------------------------------------------------- all histories ---- *)
Apis == {"raw", "port"}
Modes == {"error", "replace", "append", "none", "bogus"}
Offs == {0, 3}
Next ==
  /\ Len(log) < LEN
  /\ \/ \E p \in PATHS : \/ \E a \in Apis : OpenIn(p, a) \/ \E m \in Modes : OpenOut(p, m, a)
                         \/ \E n \in SIZES : Spit(p, 1, 0, n, "s")
                         \/ Slurp(p) \/ Size(p) \/ Erase(p) \/ SpitBad(p) \/ \E q \in PATHS : Copy(p, q)
     \/ \E i \in {j \in DOMAIN h : h[j].st # "broken"} : \/ \E n \in SIZES : \/ Write(i, 2, 0, n, "b", -1, 0) \/ Write(i, 2, 1, n, "s", n - 1, 1)
                                                                     \/ Read(i, n, n, 0) \/ Read(i, n, n + 2, 3)
                                                 \/ CharWrite(i, <<1, 5>>) \/ CharRead(i) \/ ReadLine(i) \/ WrongWay(i) \/ \E k \in 1..5 : ReadFixed(i, k)
                                                 \/ \E n \in {-1, 0, 2} : \E w \in 0..3 : Seek(i, n, w)
                                                 \/ Tell(i) \/ Eof(i) \/ Flush(i) \/ Close(i)
     \/ NewStr \/ Mkdir \/ Rmdir \/ Listing
     \/ \E i \in DOMAIN sp : \/ \E n \in SIZES : StrWrite(i, 1, 0, n, "s", -1) \/ StrWrite(i, 2, 0, n, "b", n - 1) \/ StrSeek(i, n - 1)
                             \/ StrChar(i, <<1, 7>>) \/ StrPos(i) \/ StrGet(i)
Emit == Len(log) < LEN \/ PrintT("@" \o ToJson([log |-> log]))

(* longer histories at random, with sizes around those of the buffers; everything random is drawn first *)
Rnd(S, z) == RandomElement(S)
Draw(z) ==
  LET n == Rnd(SIZES, z) IN
  [k |-> Rnd(1..24, z), p |-> Rnd(PATHS, z), q |-> Rnd(PATHS, z), n |-> n, a |-> Rnd(Apis, z), m |-> Rnd(Modes, z),
   s |-> Rnd({1, 2, 3, 9}, z), f |-> Rnd({0, 1, 100, 255}, z), t |-> Rnd({"s", "b", "v"}, z), u |-> Rnd(1..8, z),
   sz |-> Rnd({-1, -1, -1, 0, n, n - 1, n + 1, n \div 2}, z), off |-> Rnd({0, 0, 0, 0, 1, n, n + 1, -1, n \div 3}, z),
   bs |-> n + Rnd({0, 0, 1, 5}, z), bo |-> Rnd({0, 0, 0, 1, 5, 6, -1}, z), w |-> Rnd(0..3, z),
   sk |-> Rnd(SIZES \cup {-1, -17, -4096}, z), i |-> Rnd(1..4, z)]
Files1(r) ==
  \/ r.k \in 1..2 /\ OpenIn(r.p, r.a)
  \/ r.k \in 3..5 /\ OpenOut(r.p, r.m, r.a)
  \/ r.k \in 6..7 /\ Spit(r.p, r.s, r.f, r.n, r.t)
  \/ r.k \in 8..9 /\ Slurp(r.p)
  \/ r.k = 10 /\ Size(r.p)
  \/ r.k = 11 /\ r.u = 1 /\ Erase(r.p)
  \/ r.k = 12 /\ r.u = 1 /\ SpitBad(r.p)
  \/ r.k = 13 /\ Copy(r.p, r.q)
  \/ r.k = 14 /\ r.u = 1 /\ Popen(r.p, r.w)
  \/ r.k = 15 /\ r.u < 3 /\ Listing
  \/ r.k = 16 /\ r.u < 4 /\ Mkdir
  \/ r.k = 17 /\ r.u = 1 /\ Rmdir
Out1(r, i) ==
  \/ r.k \in 1..6 /\ Write(i, r.s, r.f, r.n, r.t, r.sz, r.off)
  \/ r.k \in 7..10 /\ Write(i, r.s, r.f, r.n, r.t, -1, 0)
  \/ r.k \in 11..13 /\ CharWrite(i, <<r.s, r.f>>)
  \/ r.k \in 14..16 /\ Flush(i)
  \/ r.k \in 17..19 /\ Tell(i)
In1(r, i) ==
  \/ r.k \in 1..9 /\ Read(i, r.n, r.bs, r.bo)
  \/ r.k \in 10..12 /\ CharRead(i)
  \/ r.k \in 13..18 /\ ReadLine(i)
  \/ r.k \in 19..21 /\ Eof(i)
  \/ r.k > 21 /\ Tell(i)
  \/ r.k = 21 /\ ReadFixed(i, 1 + (r.u % 5))
Any1(r, i) ==
  \/ Live(i) /\ r.k < 9 /\ Seek(i, r.sk, r.w)
  \/ Live(i) /\ r.k \in 9..10 /\ Close(i)
  \/ Live(i) /\ r.k = 11 /\ r.u < 4 /\ WrongWay(i)
  \/ ~Live(i) /\ h[i].st = "broken" /\ r.k < 4 /\ Close(i)
  \/ h[i].st = "closed" /\ r.k < 3 /\ Write(i, 1, 0, 4, "s", -1, 0)
  \/ h[i].st = "closed" /\ r.k = 3 /\ Read(i, 4, 4, 0)
  \/ h[i].st = "closed" /\ r.k = 4 /\ Tell(i)
  \/ h[i].st = "closed" /\ r.k = 5 /\ Flush(i)
  \/ h[i].st = "closed" /\ r.k = 6 /\ Eof(i)
  \/ h[i].st = "closed" /\ r.k = 7 /\ Close(i)
  \/ h[i].st = "closed" /\ r.k = 8 /\ CharRead(i)
  \/ h[i].st = "closed" /\ r.k = 9 /\ Seek(i, 0, 0)
Str1(r, i) ==
  \/ r.k \in 1..8 /\ StrWrite(i, r.s, r.f, r.n, IF r.t = "v" THEN "b" ELSE r.t, r.sz)
  \/ r.k \in 9..11 /\ StrChar(i, <<r.s, r.f>>)
  \/ r.k \in 12..13 /\ StrPos(i)
  \/ r.k \in 14..18 /\ StrSeek(i, <<-1, 0, 1, sp[i].pos, RLen(sp[i].r), RLen(sp[i].r) \div 2, 16, 17>>[r.u])
  \/ r.k > 18 /\ StrGet(i)
SimNext ==
  /\ Len(log) < LEN
  /\ \E j \in 1..4 : \E r \in {Draw(Len(log) + j)} :
       \/ Files1(r)
       \/ r.i \in DOMAIN h /\ h[r.i].m # "in" /\ Live(r.i) /\ Out1(r, r.i)
       \/ r.i \in DOMAIN h /\ h[r.i].m = "in" /\ Live(r.i) /\ In1(r, r.i)
       \/ r.i \in DOMAIN h /\ Any1(r, r.i)
       \/ NewStr
       \/ r.i \in DOMAIN sp /\ Str1(r, r.i)

(* ------------------------------------------------ what has to hold here --- *)
(* positions lie within the file, except after seeking past its end; nobody else changes a file with a writer *)
Sane == /\ \A i \in DOMAIN h : h[i].pos >= 0 /\ (Live(i) => h[i].p \in DOMAIN fs)
        /\ \A p \in PATHS : Cardinality(Writers(p)) <= 1 /\ (Writers(p) # {} => Users(p) = Writers(p))
        /\ \A i \in DOMAIN sp : sp[i].pos \in 0..RLen(sp[i].r)
(* what is appended stays behind what was there *)
AppendOnly == [][\A i \in DOMAIN h : (h[i].m = "app" /\ Live(i) /\ h[i].p \in DOMAIN fs /\ h[i].p \in DOMAIN fs') =>
                   (\A p \in PATHS : (p = h[i].p /\ log' # log /\ log'[Len(log')].o \in {"write", "char-write"}) => Take(fs'[p], RLen(fs[p])) = fs[p])]_vars
(* a reader gets what the file has at its position *)
===============================================================================
