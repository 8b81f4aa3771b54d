-------------------------------- MODULE ProfGen ------------------------------
(* Behaviours of ProfMC, with a few samples to choose from at every step.     *)
EXTENDS ProfMC, Json, Randomization
Flat == [g \in Fns, o \in Offs |-> Fr(g, o, FALSE)]
RStack(d) == [i \in 1..d |-> LET q == RandomElement(DOMAIN Flat) IN Flat[q]]
GenNext == /\ Len(log) < Most
           /\ \/ \E d \in 1..(Depth + 1) : LET st == TLCEval(RStack(d)) IN \E n \in RandomSubset(2, Cnts) : Sample(st, n)
              \/ LET st == TLCEval(RStack(RandomElement(1..(Depth + 1)))) IN
                    \E n \in RandomSubset(1, Cnts), to \in RandomSubset(1, Fns) : Call(st, to, n)
              \/ \E nm \in RandomSubset(1, Fns), n \in RandomSubset(1, Cnts) : Entry2(nm, n)
GenSpec == MCInit /\ [][GenNext]_mcv
Emit == Len(log) = Most => PrintT("@@" \o ToJson(log))
=============================================================================
