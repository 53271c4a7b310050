-------------------------------- MODULE Trees --------------------------------
(* Trees as the language shows them: mutable maps from keywords to values,    *)
(* with clones and immutable literals.  Every behaviour up to the bound is    *)
(* printed together with what each operation must return.                     *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, SequencesExt

CONSTANTS K, D, OPS, NK   \* keys 1..K, depth of histories, enabled operations; permutations of 1..NK
VARIABLES t, imm, h, same   \* same: both names stand for one tree

Trees == {"a", "b"}
NoKey == [k \in {} |-> 0]
vars == <<t, imm, h, same>>

Init == /\ t = [x \in Trees |-> NoKey]
        /\ imm = [x \in Trees |-> FALSE]
        /\ h = <<>>
        /\ same = FALSE

Val(i) == <<"i", i>>
LitVal(k) == IF k = 2 THEN <<"b", FALSE>> ELSE Val(k * 10)
(* a change of the tree that x stands for *)
Change(x, m) == t' = [y \in Trees |-> IF y = x \/ same THEN m ELSE t[y]]
Highest(S) == CHOOSE m \in S : \A n \in S : m >= n
Upd(m, k, v) == [x \in DOMAIN m \cup {k} |-> IF x = k THEN v ELSE m[x]]
Get(m, k) == IF k \in DOMAIN m THEN m[k] ELSE <<"n">>
Entries(m) == LET ks == SetToSortSeq(DOMAIN m, <) IN [i \in 1..Len(ks) |-> <<ks[i], m[ks[i]]>>]

Log(op, res) == h' = Append(h, [op |-> op, res |-> res])

Set(x, k, v) ==
  IF imm[x] THEN /\ Log(<<"set", x, k, v>>, <<"e", "type-error">>)
                 /\ UNCHANGED <<t, imm, same>>
  ELSE /\ Change(x, Upd(t[x], k, v))
       /\ Log(<<"set", x, k, v>>, <<"tree">>)
       /\ UNCHANGED <<imm, same>>
Alias(x, y) == /\ t' = [t EXCEPT ![y] = t[x]]
               /\ imm' = [imm EXCEPT ![y] = imm[x]]
               /\ same' = TRUE
               /\ Log(<<"alias", x, y>>, <<"i", Cardinality(DOMAIN t[x])>>)
Clone(x, y) == /\ t' = [t EXCEPT ![y] = t[x]]
               /\ imm' = [imm EXCEPT ![y] = FALSE]
               /\ Log(<<"clone", x, y>>, <<"i", Cardinality(DOMAIN t[x])>>)
               /\ same' = FALSE
Merge(x, y) == LET m == [k \in DOMAIN t[x] \cup DOMAIN t[y] |-> IF k \in DOMAIN t[y] THEN t[y][k] ELSE t[x][k]] IN
               /\ t' = [t EXCEPT ![x] = m]
               /\ imm' = [imm EXCEPT ![x] = FALSE]
               /\ Log(<<"merge", x, y>>, <<"tree">>)
               /\ same' = FALSE
Lit(x, ks) == /\ t' = [t EXCEPT ![x] = [k \in ks |-> LitVal(k)]]
              /\ imm' = [imm EXCEPT ![x] = TRUE]
              /\ Log(<<"lit", x, Entries(t'[x])>>, <<"i", Cardinality(ks)>>)
               /\ same' = FALSE
New(x, ks) == /\ t' = [t EXCEPT ![x] = [k \in ks |-> LitVal(k)]]
              /\ imm' = [imm EXCEPT ![x] = FALSE]
              /\ Log(<<"new", x, Entries(t'[x])>>, <<"i", Cardinality(ks)>>)
               /\ same' = FALSE
(* keys given more than once: the last value counts *)
Of(ks) == [k \in {ks[i] : i \in DOMAIN ks} |-> Val(Highest({i \in DOMAIN ks : ks[i] = k}))]
Numbered(ks) == [i \in DOMAIN ks |-> <<ks[i], Val(i)>>]
Given(o, x, ks) == /\ t' = [t EXCEPT ![x] = Of(ks)]
                   /\ imm' = [imm EXCEPT ![x] = (o = "lit")]
                   /\ Log(<<o, x, Numbered(ks)>>, <<"i", Cardinality(DOMAIN Of(ks))>>)
                   /\ same' = FALSE
Seqs(n) == UNION {[1..m -> 1..K] : m \in 1..n} \cup {[i \in 1..m |-> i] : m \in {4, 5, 6, 7, 9, 12, 20}} \cup {[i \in 1..m |-> 1 + ((i * 5) % 11)] : m \in {7, 11, 13, 22}}
Inc(x, k) == LET old == IF k \in DOMAIN t[x] /\ t[x][k][1] = "i" THEN t[x][k][2] ELSE 0 IN
             /\ ~imm[x]
             /\ ~(k \in DOMAIN t[x] /\ t[x][k][1] = "b")
             /\ Change(x, Upd(t[x], k, Val(old + 1)))
             /\ Log(<<"inc", x, k>>, <<"tree">>)
             /\ UNCHANGED <<imm, same>>
Ref(x, k) == Log(<<"ref", x, k>>, Get(t[x], k)) /\ UNCHANGED <<t, imm, same>>
Has(x, k) == Log(<<"has", x, k>>, <<"b", k \in DOMAIN t[x]>>) /\ UNCHANGED <<t, imm, same>>
Equal == Log(<<"equal", "a", "b">>, <<"b", t["a"] = t["b"]>>) /\ UNCHANGED <<t, imm, same>>
BadKey(x) == Log(<<"badkey", x>>, <<"e", "type-error">>) /\ UNCHANGED <<t, imm, same>>
Filter(x, y) == LET m == [k \in {k \in DOMAIN t[x] : t[x][k] # <<"n">>} |-> t[x][k]] IN
             /\ t' = [t EXCEPT ![y] = m]
             /\ imm' = [imm EXCEPT ![y] = FALSE]
             /\ Log(<<"filter", x, y>>, <<"tree">>)
               /\ same' = FALSE

(* in random simulation one key is drawn instead of enumerating all of them *)
Ks(z) == IF "draw" \in OPS THEN {RandomElement(1..K)} ELSE 1..K
Free == {k \in 1..K : k \notin DOMAIN t["a"]}
Vs == {Val(Len(h)), <<"n">>, <<"b", Len(h) % 2 = 1>>}

Next == /\ Len(h) < D
        /\ \/ "set" \in OPS /\ \E x \in Trees, k \in Ks(Len(h)), v \in Vs : Set(x, k, v)
           \/ "set1" \in OPS /\ \E k \in Ks(Len(h)) : Set("a", k, Val(Len(h)))
           \/ "perm" \in OPS /\ Free # {} /\ \E k \in (IF "draw" \in OPS THEN {RandomElement(Free)} ELSE Free) : Set("a", k, Val(k))
           \/ "clone" \in OPS /\ \E x, y \in Trees : x # y /\ Clone(x, y)
           \/ "alias" \in OPS /\ \E x, y \in Trees : x # y /\ Alias(x, y)
           \/ "merge" \in OPS /\ \E x, y \in Trees : x # y /\ Merge(x, y)
           \/ "lit" \in OPS /\ \E x \in Trees, ks \in (SUBSET (1..NK)) \ {{}} : Lit(x, ks)
           \/ "new" \in OPS /\ \E x \in Trees, ks \in SUBSET (1..NK) : New(x, ks)
           \/ "given" \in OPS /\ \E x \in Trees, ks \in Seqs(3), o \in {"new", "lit"} : Given(o, x, ks)
           \/ "inc" \in OPS /\ \E x \in Trees, k \in Ks(Len(h)) : Inc(x, k)
           \/ "ref" \in OPS /\ \E x \in Trees, k \in Ks(Len(h)) : Ref(x, k)
           \/ "has" \in OPS /\ \E x \in Trees, k \in Ks(Len(h)) : Has(x, k)
           \/ "equal" \in OPS /\ Equal
           \/ "badkey" \in OPS /\ \E x \in Trees : BadKey(x)
           \/ "filter" \in OPS /\ \E x, y \in Trees : x # y /\ Filter(x, y)

Final == [a |-> Entries(t["a"]), b |-> Entries(t["b"])]
Emit == Len(h) = D => PrintT("@" \o ToJson([h |-> h, f |-> Final]))

(* Properties of the model itself *)
SameOK == same => t["a"] = t["b"] /\ imm["a"] = imm["b"]
TypeOK == \A x \in Trees : DOMAIN t[x] \subseteq 1..(IF K > NK THEN K ELSE NK) \cup (IF "given" \in OPS THEN 1..20 ELSE {})
LastWriteWins ==
  [][\A x \in Trees, k \in 1..K :
       (h' # h /\ h'[Len(h')].op[1] = "set" /\ h'[Len(h')].op[2] = x /\ ~imm[x])
         => \A j \in 1..K : IF j = h'[Len(h')].op[3] THEN Get(t'[x], j) = h'[Len(h')].op[4] ELSE Get(t'[x], j) = Get(t[x], j)]_vars
ImmutableKeeps == [][\A x \in Trees : (imm[x] /\ imm'[x] /\ h'[Len(h')].op[1] \notin {"lit", "alias"}) => t'[x] = t[x]]_vars
=============================================================================
