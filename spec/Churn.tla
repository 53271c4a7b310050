--------------------------------- MODULE Churn ---------------------------------
(* When to collect: a heap of N cells; the program makes requests (bursts) of  *)
(* cells, all of which one native function takes without a safepoint in        *)
(* between; between the requests there is a safepoint where a pending          *)
(* collection happens.  Of each request the program keeps some cells while     *)
(* dropping older ones, never holding more than LIVE.                          *)
(* The policy - ask for a collection when more than Limit cells are in use,    *)
(* Limit = max(3/4 N, half way between what survived the last one and N) -     *)
(* never runs out as long as live data plus one request stay within 7/8 of     *)
(* what is left, and asks for no more collections than the space it frees      *)
(* justifies.  TLC checks it; the parameters that the check then uses with     *)
(* the real heaps are the ones enumerated here, scaled.                        *)
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS N, LIVE, BURST
VARIABLES used, live, limit, want, gcs, out

MaxI(a, b) == IF a > b THEN a ELSE b
LimitFor(a) == MaxI(N - N \div 4, a + (N - a) \div 2)
vars == <<used, live, limit, want, gcs, out>>
Init == used = 0 /\ live = 0 /\ limit = LimitFor(0) /\ want = FALSE /\ gcs = 0 /\ out = FALSE
(* a native function takes b cells of which k are kept; older data is dropped down to LIVE *)
Request == \E b \in 1..BURST : \E k \in {0, 1, b} :
             /\ ~out /\ ~want
             /\ k <= b
             /\ live' = IF live + k > LIVE THEN LIVE ELSE live + k
             /\ IF used + b > N THEN out' = TRUE /\ UNCHANGED <<used, want>>
                ELSE used' = used + b /\ want' = (used + b >= limit) /\ out' = FALSE
             /\ UNCHANGED <<limit, gcs>>
Drop == \E l \in 0..live : live' = l /\ UNCHANGED <<used, limit, want, gcs, out>>
Safepoint == want /\ used' = live /\ limit' = LimitFor(live) /\ want' = FALSE /\ gcs' = (IF gcs < 3 THEN gcs + 1 ELSE gcs) /\ UNCHANGED <<live, out>>
Next == Request \/ Drop \/ Safepoint
Fits == LIVE + 2 * BURST <= N /\ 4 * BURST <= N
NeverOut == Fits => ~out
(* a collection is only asked for when at least a quarter of the heap, or half of what was free, has been used since the last one *)
Worth == want => used >= limit /\ limit >= N - N \div 4
Sane == used <= N /\ (live <= used \/ out) /\ limit < N + 1
Emit == TRUE
===============================================================================
