-------------------------------- MODULE Status -------------------------------
(* Progress of work made of parts, and the consumers that report it.          *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC

(* ---- progress ---- *)
(* N: provider -> [job, p] of a single job or [job, parts: <<weight, id>>].    *)
Leaf(job) == [job |-> job, leaf |-> TRUE, p |-> 0, parts |-> << >>]
Group(job) == [job |-> job, leaf |-> FALSE, p |-> 0, parts |-> << >>]
Weight(q) == FoldLeft(LAMBDA a, x : a + x[1], 0, q)
RECURSIVE Done(_, _)
Done(N, x) == IF N[x].leaf THEN N[x].p >= 100 ELSE \A i \in DOMAIN N[x].parts : Done(N, N[x].parts[i][2])
(* Parts are worked on in order: those done at the front count in full, the   *)
(* next by its own progress.                                                  *)
RECURSIVE Progress(_, _)
Progress(N, x) ==
  IF N[x].leaf THEN N[x].p
  ELSE LET q == N[x].parts IN
       IF Done(N, x) THEN 100
       ELSE LET i == CHOOSE k \in DOMAIN q : ~Done(N, q[k][2]) /\ \A j \in 1 .. k - 1 : Done(N, q[j][2])
            IN (100 * Weight(SubSeq(q, 1, i - 1)) + q[i][1] * Progress(N, q[i][2])) \div Weight(q)
RECURSIVE Job(_, _)
Job(N, x) ==
  IF N[x].leaf \/ Done(N, x) THEN N[x].job
  ELSE LET q == N[x].parts
           i == CHOOSE k \in DOMAIN q : ~Done(N, q[k][2]) /\ \A j \in 1 .. k - 1 : Done(N, q[j][2])
       IN N[x].job \o " - " \o Job(N, q[i][2])
RECURSIVE Finish(_, _)
Finish(N, x) == IF N[x].leaf THEN [N EXCEPT ![x].p = 100]
                ELSE FoldLeft(LAMBDA m, y : Finish(m, y[2]), N, N[x].parts)

(* ---- consumers ---- *)
(* reg: the consumers registered; run: thread -> what it is at.               *)
Idle == [op |-> "", ph |-> "idle", arg |-> 0, left |-> {}]
Held(run) == \E t \in DOMAIN run : run[t].ph = "calls"
(* An operation takes effect at one moment; starting and stopping keep the    *)
(* registry to themselves until every consumer was told.                      *)
Effect(reg, run, t) ==
  LET r == run[t] IN
  IF r.op = "register" THEN [reg |-> reg \cup {r.arg}, run |-> [run EXCEPT ![t].ph = "end"]]
  ELSE [reg |-> reg, run |-> [run EXCEPT ![t].ph = IF reg = {} THEN "end" ELSE "calls", ![t].left = reg]]
CanTake(run, t) == run[t].ph = "asked" /\ ~Held(run)
Told(run, t, c) == [run EXCEPT ![t].left = @ \ {c}, ![t].ph = IF run[t].left = {c} THEN "end" ELSE "calls"]
=============================================================================
