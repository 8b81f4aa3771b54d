------------------------------ MODULE StatusGen ------------------------------
(* Behaviours of StatusMC, as the operations done.                            *)
EXTENDS StatusMC, Json, Randomization
VARIABLE h
D(r) == h' = Append(h, r)
GInit == MCInit /\ h = << >>
Fresh == Cardinality(DOMAIN N) + 1
Grow == \E b \in RandomSubset(1, BOOLEAN) :
          New(Fresh, b) /\ D([op |-> IF b THEN "group" ELSE "leaf", id |-> Fresh, job |-> J(Fresh)])
GNext == \/ Fresh \in Ids /\ Grow
         \/ DOMAIN N # {} /\ \E x \in RandomSubset(1, DOMAIN N), k \in RandomSubset(1, 1 .. 4) :
              \/ \E g \in DOMAIN N, w \in RandomSubset(1, Weights) : Add(g, w, x) /\ D([op |-> "add", id |-> g, sub |-> x, w |-> w])
              \/ \E p \in Points : Set(x, p) /\ D([op |-> "set", id |-> x, p |-> p])
              \/ (k = 1 \/ Fresh \notin Ids) /\ Fin(x) /\ D([op |-> "done", id |-> x])
GSpec == GInit /\ [][GNext]_<<mcv, h>>
Emit == ops = MostOps => PrintT("@@" \o ToJson(h))
=============================================================================
