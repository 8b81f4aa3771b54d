------------------------------- MODULE StatusMC ------------------------------
(* Every tree of parts grown, advanced and finished step by step.             *)
EXTENDS Status
CONSTANTS Ids, Weights, Points, MostOps
VARIABLES N, owner, ops
mcv == <<N, owner, ops>>
MCInit == N = [x \in {} |-> Leaf("")] /\ owner = [x \in {} |-> 0] /\ ops = 0
J(x) == "j" \o ToString(x)
May == ops < MostOps /\ ops' = ops + 1
New(x, g) == May /\ x \notin DOMAIN N /\ (\A y \in Ids : y < x => y \in DOMAIN N)
             /\ N' = N @@ (x :> IF g THEN Group(J(x)) ELSE Leaf(J(x))) /\ owner' = owner @@ (x :> 0)
RECURSIVE Above(_, _, _)
Above(o, x, g) == g # 0 /\ (g = x \/ Above(o, x, o[g]))
Add(g, w, x) == /\ May /\ g \in DOMAIN N /\ x \in DOMAIN N /\ ~N[g].leaf /\ owner[x] = 0 /\ ~Above(owner, x, g)
                /\ N' = [N EXCEPT ![g].parts = Append(@, <<w, x>>)] /\ owner' = [owner EXCEPT ![x] = g]
Set(x, p) == May /\ x \in DOMAIN N /\ N[x].leaf /\ p > N[x].p /\ N' = [N EXCEPT ![x].p = p] /\ UNCHANGED owner
Fin(x) == May /\ x \in DOMAIN N /\ N' = Finish(N, x) /\ UNCHANGED owner
MCNext == \E x \in Ids : \/ \E b \in BOOLEAN : New(x, b)
                         \/ \E g \in Ids, w \in Weights : Add(g, w, x)
                         \/ \E p \in Points : Set(x, p)
                         \/ Fin(x)
MCSpec == MCInit /\ [][MCNext]_mcv
Whole == DOMAIN N # {} =>
         \A x \in DOMAIN N : /\ Progress(N, x) \in 0 .. 100
                             /\ Progress(N, x) = 100 <=> Done(N, x)
                             /\ Done(Finish(N, x), x)
(* A group whose parts are worked on in order is at their weighted mean.      *)
Mean == \A x \in DOMAIN N :
          LET q == N[x].parts IN
          (~N[x].leaf /\ q # << >> /\ \A i \in DOMAIN q : Progress(N, q[i][2]) = 0 \/ \A j \in 1 .. i - 1 : Done(N, q[j][2])) =>
            Progress(N, x) = FoldLeft(LAMBDA a, y : a + y[1] * Progress(N, y[2]), 0, q) \div Weight(q)
(* Work going on never lowers the progress of anything.                       *)
Forward == [][DOMAIN N' = DOMAIN N /\ owner' = owner => \A x \in DOMAIN N : Progress(N', x) >= Progress(N, x)]_mcv
=============================================================================
