------------------------------- MODULE AvlTree -------------------------------
(* The tree algorithm of the runtime (lib/tree.c): insertion into a           *)
(* height-balanced search tree, and the proof obligations that it refines a   *)
(* finite map.  A tree is either <<>> (no node) or a record.                  *)
EXTENDS Integers, Sequences, FiniteSets, TLC

Empty == <<>>
H(t) == IF t = Empty THEN 0 ELSE t.h
Max(a, b) == IF a > b THEN a ELSE b
Node(k, v, l, r) == [k |-> k, v |-> v, l |-> l, r |-> r, h |-> 1 + Max(H(l), H(r))]

RotL(x) == IF x.r = Empty THEN x
           ELSE LET y == x.r IN Node(y.k, y.v, Node(x.k, x.v, x.l, y.l), y.r)
RotR(y) == IF y.l = Empty THEN y
           ELSE LET x == y.l IN Node(x.k, x.v, x.l, Node(y.k, y.v, x.r, y.r))

Bal(t, s) ==
  LET b == H(t.l) - H(t.r) IN
  IF b < -1 THEN RotL(IF s < t.r.k THEN Node(t.k, t.v, t.l, RotR(t.r)) ELSE t)
  ELSE IF b > 1 THEN RotR(IF s > t.l.k THEN Node(t.k, t.v, RotL(t.l), t.r) ELSE t)
  ELSE t

RECURSIVE Insert(_, _, _)
Insert(t, s, v) ==
  IF t = Empty THEN Node(s, v, Empty, Empty)
  ELSE IF t.k = s THEN Node(s, v, t.l, t.r)
  ELSE IF s < t.k THEN Bal(Node(t.k, t.v, Insert(t.l, s, v), t.r), s)
  ELSE Bal(Node(t.k, t.v, t.l, Insert(t.r, s, v)), s)

RECURSIVE Lookup(_, _)
Lookup(t, s) == IF t = Empty THEN "absent" ELSE IF t.k = s THEN t.v
                ELSE IF s > t.k THEN Lookup(t.r, s) ELSE Lookup(t.l, s)

RECURSIVE Keys(_)
Keys(t) == IF t = Empty THEN <<>> ELSE Keys(t.l) \o <<t.k>> \o Keys(t.r)
RECURSIVE Vals(_)
Vals(t) == IF t = Empty THEN <<>> ELSE Vals(t.l) \o <<t.v>> \o Vals(t.r)
RECURSIVE Size(_)
Size(t) == IF t = Empty THEN 0 ELSE 1 + Size(t.l) + Size(t.r)
RECURSIVE Balanced(_)
Balanced(t) == t = Empty \/ /\ H(t.l) - H(t.r) \in -1..1
                            /\ t.h = 1 + Max(H(t.l), H(t.r))
                            /\ Balanced(t.l) /\ Balanced(t.r)

(* ---- exhaustive design check: every insertion order over N keys ---------- *)
CONSTANT N
VARIABLES tree, map
Init == tree = Empty /\ map = [k \in {} |-> 0]
Put(k, v) == /\ tree' = Insert(tree, k, v)
             /\ map' = [x \in DOMAIN map \cup {k} |-> IF x = k THEN v ELSE map[x]]
Next == \E k \in 1..N : \E v \in 1..2 : Put(k, v)
Emit == TRUE
RefinesMap == /\ \A k \in 1..N : Lookup(tree, k) = IF k \in DOMAIN map THEN map[k] ELSE "absent"
              /\ Size(tree) = Cardinality(DOMAIN map)
              /\ Len(Keys(tree)) = Size(tree)
              /\ \A i \in 1..Len(Keys(tree)) : Vals(tree)[i] = map[Keys(tree)[i]]
Sorted == \A i \in 1..Len(Keys(tree)) - 1 : Keys(tree)[i] < Keys(tree)[i + 1]
BalancedInv == Balanced(tree)
=============================================================================
