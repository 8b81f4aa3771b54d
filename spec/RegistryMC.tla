------------------------------ MODULE RegistryMC -----------------------------
(* Threads that register, start and stop, step by step; the order of calls    *)
(* consumers see.                                                             *)
EXTENDS Status
CONSTANTS Threads, Consumers, MostOps
VARIABLES reg, run, log, n
rv == <<reg, run, log, n>>
RInit == reg = {} /\ run = [t \in Threads |-> Idle] /\ log = << >> /\ n = 0
Ask(t, op, a) == /\ run[t].ph = "idle" /\ n < MostOps /\ n' = n + 1
                 /\ op = "register" => a \notin reg /\ \A u \in Threads : ~(run[u].op = "register" /\ run[u].arg = a)
                 /\ run' = [run EXCEPT ![t] = [Idle EXCEPT !.op = op, !.ph = "asked", !.arg = a]] /\ UNCHANGED <<reg, log>>
Take(t) == CanTake(run, t) /\ LET e == Effect(reg, run, t) IN reg' = e.reg /\ run' = e.run /\ UNCHANGED <<log, n>>
Tell(t, c) == run[t].ph = "calls" /\ c \in run[t].left /\ run' = Told(run, t, c) /\ log' = Append(log, <<c, run[t].op, t>>) /\ UNCHANGED <<reg, n>>
Ret(t) == run[t].ph = "end" /\ run' = [run EXCEPT ![t] = Idle] /\ UNCHANGED <<reg, log, n>>
RNext == \E t \in Threads : \/ \E c \in Consumers : Ask(t, "register", c) \/ Tell(t, c)
                            \/ Ask(t, "start", 0) \/ Ask(t, "stop", 0) \/ Take(t) \/ Ret(t)
RSpec == RInit /\ [][RNext]_rv /\ WF_rv(\E t \in Threads : Take(t) \/ Ret(t) \/ \E c \in Consumers : Tell(t, c))
(* One operation at a time tells consumers, each once, before it returns.     *)
OneAtATime == Cardinality({t \in Threads : run[t].ph = "calls"}) <= 1
Seen(c) == SelectSeq(log, LAMBDA x : x[1] = c)
Calls(c) == LET q == Seen(c) IN [i \in DOMAIN q |-> <<q[i][2], q[i][3]>>]
(* A consumer sees every operation since it registered: of two, the later one *)
(* saw the last of what the earlier saw.                                      *)
Suffix(p, q) == Len(p) <= Len(q) /\ SubSeq(q, Len(q) - Len(p) + 1, Len(q)) = p
Batches == ~Held(run) => \A c, d \in reg : Suffix(Calls(c), Calls(d)) \/ Suffix(Calls(d), Calls(c))
Known == \A i \in DOMAIN log : log[i][1] \in reg
AllEnd == \A t \in Threads : run[t].ph \in {"asked", "calls", "end"} ~> run[t].ph = "idle"
=============================================================================
