------------------------------- MODULE StatsMC -------------------------------
(* Runs whose statistics are combined in any order and grouping.              *)
EXTENDS Stats
CONSTANTS Runs, Most
F == {"may", "mayw"}
VARIABLES s, sum, ops
sv == <<s, sum, ops>>
MCInit == s = [i \in Runs |-> Zero(F)] /\ sum = Zero(F) /\ ops = 0
Up1(a, f) == [a EXCEPT !.n[f] = @ + 1]
UpK(a, k) == [a EXCEPT !.edges = Inc(@, k, 1)]
(* a run counts something *)
Count(i) == /\ ops < Most /\ ops' = ops + 1
            /\ \/ \E w \in {1, 3} : s' = [s EXCEPT ![i] = Incremented(@, "may", w)] /\ sum' = Incremented(sum, "may", w)
               \/ \E k \in 0 .. 1 : s' = [s EXCEPT ![i] = UpK(@, k)] /\ sum' = UpK(sum, k)
(* what run j has is handed to run i *)
Merge(i, j) == i # j /\ s' = [s EXCEPT ![i] = AddStats(@, s[j]), ![j] = Zero(F)] /\ UNCHANGED <<sum, ops>>
MCNext == \E i \in Runs : Count(i) \/ \E j \in Runs : Merge(i, j)
MCSpec == MCInit /\ [][MCNext]_sv
RECURSIVE AddAll(_, _)
AddAll(a, S) == IF S = {} THEN a ELSE LET i == CHOOSE x \in S : TRUE IN AddAll(AddStats(a, s[i]), S \ {i})
Kept == AddAll(Zero(F), Runs) = sum
Laws == \A i, j \in Runs : /\ AddStats(s[i], s[j]) = AddStats(s[j], s[i]) /\ AddStats(s[i], Zero(F)) = s[i]
                           /\ Total(AddStats(s[i], s[j]).edges) = Total(s[i].edges) + Total(s[j].edges)
                           /\ \A k \in Runs : AddStats(AddStats(s[i], s[j]), s[k]) = AddStats(s[i], AddStats(s[j], s[k]))
=============================================================================
