------------------------------- MODULE R08Trace ------------------------------
(* Validates progress queries and the calls consumers received.               *)
EXTENDS Status, TraceLib
VARIABLES l, N, reg, run, busy
tvars == <<l, N, reg, run, busy>>
ASSUME TLCSet(7, 0)
Note == TLCSet(7, IF l > TLCGet(7) THEN l ELSE TLCGet(7))
Accepted == IF TLCGet(7) = Len(Trace) + 1 THEN TRUE ELSE PrintT(<<"REJECTED", TLCGet(7)>>) /\ FALSE

NoOne == 0
Nodes(q) == /\ {q[i].id : i \in DOMAIN q} = DOMAIN N' /\ Len(q) = Cardinality(DOMAIN N')
            /\ \A i \in DOMAIN q : /\ q[i].p = Progress(N', q[i].id) /\ q[i].done = Done(N', q[i].id)
                                   /\ q[i].job = Job(N', q[i].id)
Tree(t) ==
  /\ N' = CASE t.op = "leaf" -> (t.id :> Leaf(t.job)) @@ N
            [] t.op = "group" -> (t.id :> Group(t.job)) @@ N
            [] t.op = "add" -> [N EXCEPT ![t.id].parts = Append(@, <<t.w, t.sub>>)]
            [] t.op = "set" -> [N EXCEPT ![t.id].p = t.p]
            [] t.op = "done" -> Finish(N, t.id)
  /\ Nodes(t.r)
  /\ UNCHANGED <<reg, run, busy>>
Step(t) ==
  CASE t.e = "Reset" -> N' = << >> /\ reg' = {} /\ run' = << >> /\ busy' = NoOne
    [] t.e = "Tree" -> Tree(t)
    [] t.e = "Threads" -> run' = [i \in 1 .. t.n |-> Idle] /\ t.same /\ UNCHANGED <<N, reg, busy>>
    [] t.e = "Inv" -> /\ run[t.t].ph = "idle"
                      /\ run' = [run EXCEPT ![t.t] = [Idle EXCEPT !.op = t.op, !.ph = "asked", !.arg = t.c]]
                      /\ UNCHANGED <<N, reg, busy>>
    \* a consumer is called, with the work it is to report on
    [] t.e = "Call" -> /\ busy = NoOne /\ run[t.t].ph = "calls" /\ run[t.t].op = t.op /\ t.c \in run[t.t].left
                       /\ t.op = "start" => t.work = run[t.t].arg
                       /\ busy' = t.c /\ UNCHANGED <<N, reg, run>>
    [] t.e = "Back" -> /\ busy = t.c /\ busy' = NoOne /\ run' = Told(run, t.t, t.c) /\ UNCHANGED <<N, reg>>
    [] t.e = "Ret" -> run[t.t].ph = "end" /\ run' = [run EXCEPT ![t.t] = Idle] /\ UNCHANGED <<N, reg, busy>>
    \* the registry is gone: so are the consumers it owned
    [] t.e = "Gone" -> t.alive = 0 /\ t.died = Cardinality(reg) /\ UNCHANGED <<N, reg, run, busy>>
    [] OTHER -> FALSE
Take == \E t \in DOMAIN run : /\ CanTake(run, t)
                              /\ LET e == Effect(reg, run, t) IN reg' = e.reg /\ run' = e.run
                              /\ UNCHANGED <<l, N, busy>>
TInit == N = << >> /\ reg = {} /\ run = << >> /\ busy = NoOne /\ l = 1
TNext == (l <= Len(Trace) /\ l' = l + 1 /\ Step(Trace[l])) \/ Take
TSpec == TInit /\ [][TNext]_tvars
=============================================================================
