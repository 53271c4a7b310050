------------------------------- MODULE SymTab -------------------------------
(***************************************************************************)
(* Symbols.  Abstractly: making a symbol of a name gives the one symbol of *)
(* that name; what the program holds survives collections.                 *)
(* Concretely: an index of N slots with linear probing from the home slot  *)
(* of a name, in which freed slots leave tombs, which are cleared when     *)
(* nothing follows them.  TLC checks that the index implements the         *)
(* abstraction for every history; the histories are then replayed with     *)
(* real names whose home slots lie like those of the model.                *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS N, NAMES, HIST, DEPTH
VARIABLES tab, held, alive, garbage, hist

vars == <<tab, held, alive, garbage, hist>>
Empty == 0
Tomb == -1
Names == 1 .. NAMES
Slots == 0 .. N - 1
\* home slots: a chain that wraps around, one that starts inside of it, single ones
Home(n) == CASE n \in {1, 2, 3} -> N - 2 [] n \in {4, 5} -> 0 [] n = 6 -> N - 1 [] n = 7 -> 1 [] OTHER -> 2
Step(s) == IF s = N - 1 THEN 0 ELSE s + 1
Back(s) == IF s = 0 THEN N - 1 ELSE s - 1

\* The slot of a name, or where to put it
RECURSIVE Probe(_, _, _, _, _)
Probe(t, n, s, tomb, k) ==
    IF k = N THEN (IF tomb < 0 THEN -1 ELSE tomb)
    ELSE IF t[s] = Empty THEN (IF tomb < 0 THEN s ELSE tomb)
    ELSE IF t[s] = n THEN s
    ELSE Probe(t, n, Step(s), IF t[s] = Tomb /\ tomb < 0 THEN s ELSE tomb, k + 1)
Slot(t, n) == Probe(t, n, Home(n), -1, 0)
Found(t, n) == LET s == Slot(t, n) IN s >= 0 /\ t[s] = n

RECURSIVE Clear(_, _)
Clear(t, s) == IF t[s] = Tomb THEN Clear([t EXCEPT ![s] = Empty], Back(s)) ELSE t
Freed(t, n) ==
    LET s == CHOOSE x \in Slots : t[x] = n
        u == [t EXCEPT ![s] = Tomb]
    IN  IF u[Step(s)] = Empty THEN Clear(u, s) ELSE u

H(op) == IF HIST THEN Append(hist, op) ELSE hist
\* A symbol is made; the program keeps it or not
Make(n, keep) ==
    /\ garbage = {}
    /\ Slot(tab, n) >= 0
    /\ tab' = [tab EXCEPT ![Slot(tab, n)] = n]
    /\ alive' = alive \cup {n}
    /\ held' = IF keep THEN held \cup {n} ELSE held
    /\ UNCHANGED garbage
    /\ hist' = H(<<IF keep THEN "hold" ELSE "make", n>>)
Drop(n) == /\ garbage = {} /\ n \in held /\ held' = held \ {n} /\ UNCHANGED <<tab, alive, garbage>> /\ hist' = H(<<"drop", n>>)
\* A collection frees what is not held, one symbol after the other, in any order
Collect == /\ garbage = {} /\ alive # held /\ garbage' = alive \ held /\ UNCHANGED <<tab, held, alive>> /\ hist' = H(<<"gc", 0>>)
Free(n) == /\ n \in garbage /\ tab' = Freed(tab, n) /\ garbage' = garbage \ {n} /\ alive' = alive \ {n} /\ UNCHANGED <<held, hist>>

Init == tab = [s \in Slots |-> Empty] /\ held = {} /\ alive = {} /\ garbage = {} /\ hist = <<>>
Next == \/ \E n \in Names : Make(n, TRUE) \/ Make(n, FALSE) \/ Drop(n) \/ Free(n)
        \/ Collect

\* ------------------------------------------------------------- invariants
Faithful == \A n \in Names : Found(tab, n) = (n \in alive)
Once == \A n \in Names : Cardinality({s \in Slots : tab[s] = n}) <= 1
Kept == held \subseteq alive
\* there is room as long as fewer symbols than slots are alive
Room == Cardinality(alive) < N => \A n \in Names : Slot(tab, n) >= 0

\* -------------------------------------------------------------- histories
\* (the collection as one step; in the order of the names)
RECURSIVE Sweep(_, _)
Sweep(t, G) == IF G = {} THEN t ELSE LET n == CHOOSE x \in G : \A y \in G : x <= y IN Sweep(Freed(t, n), G \ {n})
HNext == /\ Len(hist) < DEPTH
         /\ \/ \E n \in Names : Make(n, TRUE) \/ (Make(n, FALSE) /\ n \notin alive) \/ Drop(n)
            \/ /\ alive # held /\ tab' = Sweep(tab, alive \ held) /\ alive' = held /\ UNCHANGED <<held, garbage>> /\ hist' = H(<<"gc", 0>>)
Useful == \A i \in 1 .. Len(hist) - 1 : ~(hist[i][1] = "drop" /\ hist[i + 1][1] = "hold" /\ hist[i][2] = hist[i + 1][2])
Emit == Len(hist) = DEPTH /\ Useful /\ (\E i \in DOMAIN hist : hist[i][1] = "gc") => PrintT("@" \o ToJson([h |-> hist, held |-> [n \in Names |-> n \in held]]))
Rand(k) == LET n == RandomElement(Names)
            m == RandomElement(Names)
        IN  RandomElement({<<"hold", n>>, <<"hold", m>>, <<"make", n>>, <<"drop", m>>, <<"drop", n>>, <<"gc", 0>>, <<"churn", RandomElement({10, 300, 5000, 15000})>>, <<"wave", RandomElement({100, 3000, 8000})>>, <<"gensym", n>>})
SimNext == /\ Len(hist) < DEPTH
           /\ \E op \in {Rand(Len(hist))} :
                \/ op[1] \in {"hold", "make"} /\ (Make(op[2], op[1] = "hold") \/ (Slot(tab, op[2]) < 0 /\ UNCHANGED vars))
                \/ op[1] = "drop" /\ held' = held \ {op[2]} /\ hist' = H(op) /\ UNCHANGED <<tab, alive, garbage>>
                \/ op[1] \in {"gc", "churn", "wave"} /\ tab' = Sweep(tab, alive \ held) /\ alive' = held /\ hist' = H(op) /\ UNCHANGED <<held, garbage>>
                \/ op[1] = "gensym" /\ hist' = H(op) /\ UNCHANGED <<tab, held, alive, garbage>>
SimEmit == Len(hist) = DEPTH => PrintT("@" \o ToJson([h |-> hist, held |-> [n \in Names |-> n \in held]]))
=============================================================================
