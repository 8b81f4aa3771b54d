-------------------------------- MODULE CfgGen -------------------------------
(* Behaviours of CfgMC: a program and counters, in the order they were added.*)
EXTENDS CfgMC, Json, Randomization
CONSTANT Per   \* initial programs to pick from
GInit == /\ \E shs \in {[i \in 1 .. NF |-> RandomElement(Funcs)] : j \in 1 .. Per}, gaps \in {[i \in 1 .. NF |-> RandomElement(Gaps)] : j \in 1 .. 2} :
              prog = Prog(shs, gaps)
         /\ H = Handles(prog, FuncIds(prog)) /\ br = NoCounts /\ ft = NoCounts
Ends == {H[i].e - 1 : i \in DOMAIN H} \cap From
Starts == {H[i].a : i \in DOMAIN H}
GenNext == \E n \in RandomSubset(1, Cnts), a \in RandomSubset(1, IF RandomElement(1 .. 5) = 1 THEN Addrs ELSE Starts),
              b \in RandomSubset(1, IF RandomElement(1 .. 8) = 1 \/ Ends = {} THEN From ELSE Ends) : Br(b, a, n) \/ Fa(a, b, n)
GenSpec == GInit /\ [][GenNext]_mcv
Emit == ~Room => PrintT("@@" \o ToJson([prog |-> prog, br |-> Pairs(br), ft |-> Pairs(ft)]))
=============================================================================
