-------------------------------- MODULE Payload --------------------------------
(* Contents: buffers, strings, arrays and programs hold bytes outside of their  *)
(* cells.  The program holds objects in a ring of RING places; every step makes *)
(* one with contents of some size (or makes the one held in a place grow) and   *)
(* forgets the one that was in the place before.  When all CELLS are taken      *)
(* those that are not held are collected, and their bytes given back.           *)
(* Whatever happens, the bytes obtained and not given back are those of the     *)
(* objects in cells: bounded, however long the program runs.                    *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS CELLS, RING, SIZES, LEN
VARIABLES cell, ring, bytes, n

Max(S) == CHOOSE x \in S : \A y \in S : x >= y
RECURSIVE Sum(_, _)
Sum(f, S) == IF S = {} THEN 0 ELSE LET x == CHOOSE x \in S : TRUE IN f[x] + Sum(f, S \ {x})
Held == {ring[i] : i \in 1..RING} \ {0}
Free == {c \in 1..CELLS : cell[c] = -1}
Init == cell = [c \in 1..CELLS |-> -1] /\ ring = [i \in 1..RING |-> 0] /\ bytes = 0 /\ n = 0
Collect == /\ Free = {}
           /\ cell' = [c \in 1..CELLS |-> IF c \in Held THEN cell[c] ELSE -1]
           /\ bytes' = Sum(cell, Held)
           /\ UNCHANGED <<ring, n>>
Make(i, s) == /\ Free # {} /\ n < LEN
              /\ LET c == CHOOSE c \in Free : \A d \in Free : c <= d IN
                 cell' = [cell EXCEPT ![c] = s] /\ ring' = [ring EXCEPT ![i] = c] /\ bytes' = bytes + s /\ n' = n + 1
Grow(i, s) == /\ ring[i] # 0 /\ n < LEN
              /\ cell' = [cell EXCEPT ![ring[i]] = IF s > @ THEN s ELSE @]
              /\ bytes' = bytes + (IF s > cell[ring[i]] THEN s - cell[ring[i]] ELSE 0)
              /\ n' = n + 1 /\ UNCHANGED ring
Forget(i) == ring[i] # 0 /\ ring' = [ring EXCEPT ![i] = 0] /\ UNCHANGED <<cell, bytes, n>>
Next == Collect \/ \E i \in 1..RING : Forget(i) \/ \E s \in SIZES : Make(i, s) \/ Grow(i, s)
Accounted == bytes = Sum(cell, (1..CELLS) \ Free)
Bounded == bytes <= CELLS * Max(SIZES)
KeepsHeld == \A i \in 1..RING : ring[i] # 0 => cell[ring[i]] # -1
(* the programs replayed: what is made, how many are held, and the size of each; several times more bytes in all than may be used at once *)
What == {"buffer", "fixed", "string", "cut", "tostr", "tobuf", "bufgrow", "array", "arrgrow", "code", "serialize", "deserialize", "readstr", "readbuf", "readarr", "join", "split", "port", "slurp", "symstr", "compile", "viewed"}
Emit == n = 0 /\ ring = [i \in 1..RING |-> 0] /\ bytes = 0 /\ cell = [c \in 1..CELLS |-> -1] =>
   \A w \in What : \A r \in {1, 100} : PrintT("@" \o ToJson([w |-> w, ring |-> r]))
===============================================================================
