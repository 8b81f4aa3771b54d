----------------------------- MODULE RegistryGen -----------------------------
(* Schedules of RegistryMC: what is asked of which thread, and when a consumer*)
(* that was called may return.                                                *)
EXTENDS RegistryMC, Json, Randomization
VARIABLE h
Same == UNCHANGED h
GInit == RInit /\ h = << >>
GNext == \E t \in Threads :
           \/ \E c \in Consumers : Ask(t, "register", c) /\ h' = Append(h, <<"register", t, c>>)
           \/ \E w \in RandomSubset(1, 1 .. 3) : Ask(t, "start", w) /\ h' = Append(h, <<"start", t, w>>)
           \/ Ask(t, "stop", 0) /\ h' = Append(h, <<"stop", t, 0>>)
           \/ Take(t) /\ Same
           \/ (\E c \in Consumers : Tell(t, c)) /\ h' = Append(h, <<"tell">>)
           \/ Ret(t) /\ Same
GSpec == GInit /\ [][GNext]_<<rv, h>>
Emit == (n = MostOps /\ \A t \in Threads : run[t].ph = "idle") => PrintT("@@" \o ToJson(h))
=============================================================================
