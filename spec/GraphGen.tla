------------------------------- MODULE GraphGen ------------------------------
(* Behaviours of GraphMC: a graph, its merging and the order that comes out. *)
EXTENDS GraphMC, Json, Randomization
GenNext == \/ \E s \in RandomSubset(3, Vs), t \in RandomSubset(3, Vs), w \in RandomSubset(1, Ws) : \E k \in Kinds(s, t) : Edge(s, t, w, k)
           \/ (Len(es) = MostE /\ Begin)
           \/ \E i \in DOMAIN Groups : Merge(i)
           \/ Done
           \/ (phase = "grow" /\ Len(es) < MostE /\ UNCHANGED mcv)
GenSpec == Init /\ [][GenNext]_mcv
Emit == phase = "done" => PrintT("@@" \o ToJson([p |-> P, scale |-> Scale,
          nodes |-> [i \in DOMAIN Sizes |-> [j \in DOMAIN Sizes[i] |->
             LET v == <<i - 1, j - 1>> g == G.n[v] IN [addr |-> g.addr, id |-> g.id, size |-> g.size, ret |-> FALSE, tail |-> FALSE, eh |-> g.eh, ft |-> TRUE, ib |-> FALSE]]],
          edges |-> [i \in DOMAIN es |-> <<es[i].s[1], es[i].s[2], es[i].t[1], es[i].t[2], es[i].w, es[i].k>>]]))
=============================================================================
