-------------------------------- MODULE S03MC --------------------------------
(* A program run whose every branch is sampled: the ranges derived from the  *)
(* samples cover each instruction exactly as often as it was executed.       *)
EXTENDS S03
CONSTANTS N, MaxOps
VARIABLES B,      \* the branch instructions
          pc, exec, n
mcv == <<taken, nottaken, B, pc, exec, n>>
P == 0..N
NextBr(p) == Min({b \in B : b >= p})
Runs(p) == p \in P /\ \E b \in B : b >= p
Arrive(p) == /\ pc' = p
             /\ exec' = [q \in P |-> exec[q] + IF q >= p /\ q <= NextBr(p) THEN 1 ELSE 0]
             /\ n' = n + 1 /\ UNCHANGED B
MCInit == /\ B \in SUBSET P /\ pc = -1 /\ exec = [q \in P |-> 0] /\ n = 0 /\ Init
MCNext ==
  /\ n < MaxOps
  /\ \/ pc = -1 /\ \E t \in P : Runs(t) /\ Taken(-1, t, 1) /\ Arrive(t)
     \/ pc # -1 /\ \E t \in P : Runs(t) /\ Taken(NextBr(pc), t, 1) /\ Arrive(t)
     \/ pc # -1 /\ Runs(NextBr(pc) + 1) /\ NotTaken(NextBr(pc), 1) /\ Arrive(NextBr(pc) + 1)
     \* leaving the binary: no arrival inside
     \/ pc # -1 /\ Taken(NextBr(pc), -1, 1) /\ pc' = -1 /\ n' = n + 1 /\ UNCHANGED <<B, exec>>
MCSpec == MCInit /\ [][MCNext]_mcv

R == Ranges(taken, nottaken, LAMBDA p : p \in B)
Cover(p) == SumOver({k \in DOMAIN R : k[1] <= p /\ p <= k[2]}, LAMBDA k : R[k])
Exact == \A p \in P : Cover(p) = exec[p]
Disjoint == \A j, k \in DOMAIN R : j # k => j[2] < k[1] \/ k[2] < j[1]
(* No range runs over a branch or into a target. *)
WithinBlocks == \A k \in DOMAIN R : \A p \in k[1]..k[2] :
  (p < k[2] => p \notin B) /\ (p > k[1] => p \notin Targets(taken))
(* Knowing only sampled branches is as good when all executed ones are sampled. *)
SampledEnough ==
  pc = -1 => \A k \in DOMAIN R : k[2] <= N =>
     LET S == Ranges(taken, nottaken, LAMBDA p : p \in Sampled(taken, nottaken)) IN Get(S, k) = R[k]
=============================================================================
