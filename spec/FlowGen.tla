------------------------------- MODULE FlowGen -------------------------------
(* Executions of FlowMC, with what they recorded and the steps they took.     *)
EXTENDS FlowMC, Json, Randomization
CONSTANT Per
GInit == \E shs \in {[i \in 1 .. NF |-> RandomElement(Funcs)] : j \in 1 .. Per}, gaps \in {[i \in 1 .. NF |-> RandomElement(Gaps)] : j \in 1 .. 2} : Start(shs, gaps)
GenNext == \E b \in IF at = Out THEN RandomSubset(1, DOMAIN H) ELSE {at} :
           \/ Enter(b, 1) \/ Run(b) \/ Call(b) \/ Inside(b)
           \/ (RandomElement(1 .. 3) = 1 \/ ~May) /\ Leave(b)
           \/ \E c \in RandomSubset(1, DOMAIN H) : Jump(b, c)
           \/ ~May /\ \E k \in RandomSubset(1, 2 .. MostTimes) : Times(k)
GenSpec == GInit /\ [][GenNext]_flow
Emit == (at = Out /\ back # Out) => PrintT("@@" \o ToJson([prog |-> prog, br |-> Taken, still |-> Still,
           steps |-> SetToSeq({<<p[1], p[2], steps[p]>> : p \in DOMAIN steps})]))
=============================================================================
