------------------------------- MODULE ReadEnum --------------------------------
(* Texts, character by character or token by token, and what Reader.tla says   *)
(* about them.                                                                 *)
EXTENDS Reader, TLC, Json
CONSTANTS MODE, DEPTH
VARIABLES ts

Chars == {<<97>>, <<49>>, <<45>>, <<46>>, <<58>>, <<40>>, <<41>>, <<91>>, <<93>>, <<39>>, <<126>>, <<64>>, <<35>>, <<59>>, <<124>>, <<10>>, <<32>>, <<34>>, <<92>>, <<110>>,
          <<123>>, <<125>>, <<96>>, <<120>>, <<33>>, <<109>>, <<65>>, <<48>>}

(* tokens, as bytes *)
Tokens == {
  <<40>>, <<41>>, <<91>>, <<93>>, <<123>>, <<125>>, <<35, 35, 40>>, <<35, 64, 40>>, <<39>>, <<96>>, <<126>>, <<126, 64>>, <<35, 59>>,
  <<32>>, <<10>>, <<9, 13, 11, 12>>, <<32, 46, 32>>, <<59, 99, 10>>, <<59, 41, 10, 32>>, <<35, 124, 40, 124, 35>>, <<35, 124, 35, 124, 124, 35, 32, 124, 35>>, <<35, 124>>, <<35, 33, 32, 97, 10>>,
  <<97, 98, 99>>, <<97, 46, 98, 46, 99>>, <<43>>, <<45>>, <<45, 62, 97>>, <<97, 33, 63, 47, 42, 38, 37, 36, 60, 61, 62, 94, 95, 44, 126, 64, 124, 92>>, <<195, 164>>,
  <<58, 107>>, <<107, 58>>, <<97, 58, 98>>, <<113, 117, 111, 116, 101>>,
  <<48>>, <<52, 50>>, <<45, 55>>, <<49, 95, 48, 48, 48, 44, 48>>, <<57,57,57,57,57,57,57,57,57,57,57,57,57,57,57,57,57,57>>, <<49,48,48,48,48,48,48,48,48,48,48,48,48,48,48,48,48,48,48>>,
  <<35, 120, 70, 102>>, <<35, 120, 45, 49, 48>>, <<35, 120, 102,102,102,102,102,102,102,102,102,102,102,102,102,102,102,102>>, <<35, 120, 56,48,48,48,48,48,48,48,48,48,48,48,48,48,48,48,48>>,
  <<35, 98, 49, 48, 49>>, <<35, 98, 50>>, <<35, 111, 55, 55>>, <<35, 111, 56>>, <<35, 100, 49, 48>>, <<49, 97>>,
  <<49, 46, 53>>, <<45, 48, 46, 50, 53>>, <<51, 46, 48, 48, 49>>, <<48, 46, 49, 50, 51, 52, 53, 54, 55, 56, 57>>, <<48, 46, 57,57,57,57,57,57,57,57,57,57,57,57,57,57,57,57,57,57>>,
  <<49, 46, 48, 95, 53>>, <<49, 48, 48, 46, 53, 48>>, <<49, 46, 50, 46, 51>>, <<49, 46, 48>>,
  <<34, 34>>, <<34, 115, 32, 40, 59, 35, 34>>, <<34, 92, 34, 92, 92, 92, 110, 92, 48, 92, 101, 34>>, <<34, 92, 97, 92, 98, 92, 116, 92, 118, 92, 102, 92, 114, 34>>, <<34, 92, 122, 34>>, <<34>>,
  <<34, 195, 164, 1, 255, 10, 34>>,
  <<35, 92, 97>>, <<35, 92, 40>>, <<35, 92, 59>>, <<35, 92, 48>>} \cup {<<35, 92>> \o n : n \in DOMAIN CharNames} \cup {
  <<35, 109>>, <<35, 109, 48, 48, 70, 70, 65, 57>>, <<35, 109, 48>>, <<35, 109, 102, 102>>, <<35, 110, 105, 108>>, <<35, 110>>, <<35, 116>>, <<35, 102>>, <<35, 122>>, <<35>>}

Text(s) == FlattenSeq(s)
More == IF MODE = "chars" THEN Chars ELSE Tokens
(* biased, so that simulated texts are often well formed *)
Closer == {<<41>>, <<93>>, <<125>>}
Atoms == {t \in Tokens : Read(t).t = "ok" /\ Elems(t, 1, 0, <<>>).v # <<>>}
Gap == {<<32>>, <<10>>, <<59, 99, 10>>, <<35, 124, 40, 124, 35>>, <<35, 124, 35, 124, 124, 35, 32, 124, 35>>}
Opens == {<<40>>, <<91>>, <<123>>, <<35, 35, 40>>, <<35, 64, 40>>}
Pfx == {<<39>>, <<96>>, <<126>>, <<126, 64>>, <<35, 59>>}
Init == ts \in {<<t>> : t \in More} \cup {<<>>}
Next == Len(ts) < DEPTH /\ \E t \in More : ts' = Append(ts, t)
CloserOf(t) == CASE t = <<91>> -> <<93>> [] t = <<123>> -> <<125>> [] OTHER -> <<41>>
Open1(s) == FoldLeft(LAMBDA st, t : IF t \in Opens THEN Append(st, CloserOf(t)) ELSE IF t \in Closer /\ st # <<>> THEN SubSeq(st, 1, Len(st) - 1) ELSE st, <<>>, s)
Pick(n) == LET o == Open1(ts)
               S == CASE n \in 1..4 -> Atoms [] n \in 5..9 -> Gap [] n \in 10..11 -> Opens [] n \in 12..14 -> IF o # <<>> THEN {o[Len(o)]} ELSE Gap [] n \in 15..16 -> Pfx
                      [] n = 17 -> {<<32, 46, 32>>} [] n = 18 -> Closer [] OTHER -> More IN RandomElement(S)
SimInit == ts = <<>>
SimNext == /\ Len(ts) < DEPTH + 6
           /\ \E n \in {RandomElement(1..64)} : \E t \in {Pick(IF n > 48 THEN n - 48 ELSE IF n > 32 THEN n - 32 ELSE IF n > 20 THEN n - 16 ELSE n)} :
                 ts' = IF Len(ts) < DEPTH THEN Append(ts, t)
                       ELSE Append(ts, IF Open1(ts) # <<>> THEN Open1(ts)[Len(Open1(ts))] ELSE <<10>>)      \* close what is open
Spec == Init /\ [][Next]_ts

(* Texts that are complete can be read piecewise: nothing is dropped, doubled or merged *)
At0(s) == Elems(Text(s), 1, 0, <<>>)
Piecewise == \A i \in 1..Len(ts) - 1 :
   LET a == At0(SubSeq(ts, 1, i))  b == At0(SubSeq(ts, i + 1, Len(ts)))  c == Elems(Text(SubSeq(ts, 1, i)) \o <<10>> \o Text(SubSeq(ts, i + 1, Len(ts))), 1, 0, <<>>)
   IN a.t = "ok" /\ b.t = "ok" => c.t = "ok" /\ c.v = a.v \o b.v
(* an error stays one whatever is added after it, unless something was still open *)
SimPiecewise == Len(ts) = DEPTH + 6 => Piecewise
Out == LET x == Text(ts) IN PrintT("@" \o ToJson([x |-> x, r |-> Read(x)]))
Emit == Out
SimEmit == Len(ts) = DEPTH + 6 => \A n \in {DEPTH \div 4, DEPTH \div 2, DEPTH, DEPTH + 6} : LET x == Text(SubSeq(ts, 1, n)) IN PrintT("@" \o ToJson([x |-> x, r |-> Read(x)]))

(* Tables: every character after a backslash and in front of what may follow it,   *)
(* numbers of every length in every base, names of every length, and colons, dots   *)
(* and separators in every place of short ones                                      *)
After == <<<<>>, <<32, 120>>, <<41>>, <<40, 97, 41>>, <<10, 49>>, <<59, 97>>, <<34, 34>>, <<39, 97>>, <<35, 92, 98>>, <<58, 97>>, <<91, 93>>>>
RepT(d, n) == [i \in 1..n |-> d]
Runs(S, n) == UNION {[1..k -> S] : k \in 1..n}
NumHeads == {<<35, 98>>, <<35, 111>>, <<35, 100>>, <<35, 120>>, <<>>}
Nums == {h \o s \o z \o RepT(d, n) \o f : h \in NumHeads, s \in {<<>>, <<45>>}, z \in {<<>>, <<48>>, <<49>>}, d \in {48, 49, 55, 57, 102, 70}, n \in {0, 1, 2, 7, 8, 15, 16, 17, 18, 19, 20, 21, 22, 31, 32, 62, 63, 64, 65},
                                      f \in {<<>>, <<95, 49>>, <<44, 49>>, <<49, 95>>, <<46, 53>>, <<46, 48, 53>>, <<46>> \o RepT(48, 20) \o <<49>>, <<46>> \o RepT(49, 18), <<46>> \o RepT(49, 19), <<46, 49, 95, 49>>, <<58>>, <<46, 58>>, <<97>>, <<43>>}}
Names == {h \o RepT(97, n) \o t : h \in {<<>>, <<58>>, <<97, 46>>, <<45>>, <<124>>, <<126>>, <<64>>}, n \in {0, 1, 2, 3, 30, 31, 32, 61, 62, 63, 64, 65, 90, 91, 92, 93, 94}, t \in {<<>>, <<58>>, <<46, 98>>, <<33>>, <<58, 98>>, <<45, 49>>}}
Shorts == Runs({97, 58, 46, 49, 45, 95, 35, 43}, 5)
Tables == [chars |-> {<<35, 92, c>> \o After[i] : c \in 33..126, i \in DOMAIN After} \cup {<<40, 35, 92, c>> \o After[i] \o <<41>> : c \in 33..126, i \in DOMAIN After}
                     \cup {<<c>> \o After[i] : c \in 1..127, i \in DOMAIN After} \cup {<<34, 92, c, 97, 34>> : c \in 1..255} \cup {<<97, c, 98>> : c \in 1..255} \cup {<<35, c, 40, 97, 32, 97, 41>> : c \in 1..255} \cup {<<35, c>> : c \in 1..255}
                     \cup {<<35, 109, c, 48>> : c \in 1..255} \cup {<<35, 109, 65, c>> : c \in 1..255} \cup {<<49, c, 50>> : c \in 1..255} \cup {<<45, c, 50>> : c \in 1..255} \cup {<<58, c>> : c \in 1..255},
           nums |-> Nums, names |-> Names, shorts |-> Shorts]
TabInit == ts = <<>>
TabNext == ts = <<>> /\ \E x \in Tables[MODE] : ts' = <<x>>
TabEmit == ts # <<>> => Out

(* Big texts: pre, n times piece, mid, n times post.  What reading gives is the *)
(* same function; it is stated here as the shape w(n) of the only value, and    *)
(* compared with Read for small n.                                              *)
Big == {
  [k |-> "str", pre |-> <<34>>, piece |-> <<97>>, mid |-> <<34>>, post |-> <<>>, val |-> <<97>>],
  [k |-> "str", pre |-> <<34>>, piece |-> <<92, 110>>, mid |-> <<34>>, post |-> <<>>, val |-> <<10>>],
  [k |-> "str", pre |-> <<34, 98>>, piece |-> <<92, 92, 97>>, mid |-> <<34>>, post |-> <<>>, val |-> <<92, 97>>],
  [k |-> "str", pre |-> <<34, 98, 98>>, piece |-> <<195, 164, 92, 34>>, mid |-> <<34>>, post |-> <<>>, val |-> <<195, 164, 34>>],
  [k |-> "buf", pre |-> <<35, 109>>, piece |-> <<70, 49>>, mid |-> <<>>, post |-> <<>>, val |-> <<241>>],
  [k |-> "sym", pre |-> <<97>>, piece |-> <<98>>, mid |-> <<>>, post |-> <<>>, val |-> <<>>],
  [k |-> "key", pre |-> <<58, 97>>, piece |-> <<98>>, mid |-> <<>>, post |-> <<>>, val |-> <<>>],
  [k |-> "key", pre |-> <<97>>, piece |-> <<98>>, mid |-> <<58>>, post |-> <<>>, val |-> <<>>],
  [k |-> "list", pre |-> <<40>>, piece |-> <<97, 32>>, mid |-> <<41>>, post |-> <<>>, val |-> <<>>],
  [k |-> "list", pre |-> <<40, 98>>, piece |-> <<32, 59, 40, 10, 97>>, mid |-> <<41>>, post |-> <<>>, val |-> <<>>],
  [k |-> "list", pre |-> <<40>>, piece |-> <<35, 124, 40, 124, 35, 97, 35, 59, 34, 40, 34, 32>>, mid |-> <<41>>, post |-> <<>>, val |-> <<>>],
  [k |-> "arr", pre |-> <<35, 35, 40>>, piece |-> <<34, 97, 34>>, mid |-> <<41>>, post |-> <<>>, val |-> <<>>],
  [k |-> "nest", pre |-> <<>>, piece |-> <<40>>, mid |-> <<97>>, post |-> <<41>>, val |-> <<>>],
  [k |-> "nest", pre |-> <<>>, piece |-> <<40, 32>>, mid |-> <<35, 116>>, post |-> <<41, 10>>, val |-> <<>>],
  [k |-> "nesta", pre |-> <<>>, piece |-> <<35, 35, 40>>, mid |-> <<97>>, post |-> <<41>>, val |-> <<>>],
  [k |-> "quote", pre |-> <<>>, piece |-> <<39>>, mid |-> <<97>>, post |-> <<>>, val |-> <<>>],
  [k |-> "quote", pre |-> <<>>, piece |-> <<126, 64, 59, 10>>, mid |-> <<97>>, post |-> <<>>, val |-> <<>>],
  [k |-> "one", pre |-> <<>>, piece |-> <<35, 124>>, mid |-> <<>>, post |-> <<124, 35>>, val |-> <<>>],
  [k |-> "one", pre |-> <<>>, piece |-> <<35, 59>>, mid |-> <<32>>, post |-> <<97, 32>>, val |-> <<>>],
  [k |-> "chain", pre |-> <<97>>, piece |-> <<46, 97>>, mid |-> <<>>, post |-> <<>>, val |-> <<>>],
  [k |-> "open", pre |-> <<>>, piece |-> <<40>>, mid |-> <<>>, post |-> <<>>, val |-> <<>>],
  [k |-> "open", pre |-> <<39>>, piece |-> <<91, 35, 64, 40, 58, 97, 32>>, mid |-> <<>>, post |-> <<>>, val |-> <<>>],
  [k |-> "open", pre |-> <<>>, piece |-> <<40, 41, 41>>, mid |-> <<>>, post |-> <<>>, val |-> <<>>],
  [k |-> "open", pre |-> <<34>>, piece |-> <<92, 92>>, mid |-> <<>>, post |-> <<>>, val |-> <<>>]}
Sizes == {1, 2, 3, 7, 31, 60, 92, 93, 126, 127, 128, 129, 254, 255, 256, 257, 1000, 1023, 2047, 2048, 4093, 4094, 4095, 4096, 4097, 4098, 8190, 8191, 8192, 8193, 12288, 16383, 16384, 40000, 100000}
Rp(s, n) == FlattenSeq([i \in 1..n |-> s])
BigText(b, n) == b.pre \o Rp(b.piece, n) \o b.mid \o Rp(b.post, n) \o (IF b.k = "one" THEN <<98>> ELSE <<>>)
(* what is known about the result: a number of something in the only value *)
RECURSIVE Depth(_), DepthA(_)
Depth(v) == IF v[1] = "l" /\ v[2] # <<>> THEN 1 + Depth(v[2][1]) ELSE 0
DepthA(v) == IF v[1] = "a" THEN 1 + DepthA(v[2][1]) ELSE 0
RECURSIVE DepthQ(_)
DepthQ(v) == IF v[1] = "l" THEN 1 + DepthQ(v[2][2]) ELSE 0
Head0(b) == IF b.k \in {"str", "buf"} THEN SubSeq(b.pre, IF b.k = "str" THEN 2 ELSE 3, Len(b.pre)) ELSE <<>>
Measure(b, n, r) ==
  IF b.k = "open" THEN r.t = "err"
  ELSE r.t = "ok" /\ Len(r.v) = 1 /\ LET v == r.v[1] IN
       CASE b.k = "str" -> v = <<"s", Head0(b) \o Rp(b.val, n)>>
         [] b.k = "buf" -> v = <<"u", Rp(b.val, n)>>
         [] b.k = "sym" -> v[1] = "y" /\ Len(v[2]) = n + 1
         [] b.k = "key" -> v[1] = "k" /\ Len(v[2]) = n + 1
         [] b.k = "list" -> v[1] = "l" /\ Len(v[2]) = n + (IF Len(b.pre) > 1 THEN 1 ELSE 0)
         [] b.k = "arr" -> v[1] = "a" /\ Len(v[2]) = n
         [] b.k = "nest" -> Depth(v) = n
         [] b.k = "nesta" -> DepthA(v) = n
         [] b.k = "quote" -> DepthQ(v) = n
         [] b.k = "one" -> v = Sym(<<98>>)
         [] b.k = "chain" -> DepthQ(v) = n
BigInit == ts \in {s \in {<<b, n>> : b \in Big, n \in Sizes} : s[1].k \in {"arr", "list"} => s[2] < 10000}     \* within the capacity of the heaps
BigNext == FALSE /\ UNCHANGED ts
Deep == {"nest", "nesta", "quote", "chain"}
BigOk == LET n == ts[2] IN n <= 60 => Measure(ts[1], n, Read(BigText(ts[1], n)))
(* names longer than 93 bytes and nesting beyond a thousand levels may be refused *)
BigEmit == LET b == ts[1]  n == ts[2] IN
   PrintT("@" \o ToJson([b |-> b, n |-> n, head |-> Head0(b), may |-> IF b.k \in {"sym", "key"} THEN n + 1 > 93 ELSE IF b.k \in Deep \/ (b.k = "one" /\ b.mid # <<>>) THEN n > 1000 ELSE FALSE]))
===============================================================================
