------------------------------- MODULE S04Trace ------------------------------
EXTENDS S04, TraceLib
VARIABLES l, conv
tvars == <<seen, l, conv>>
NoConv == [short |-> FALSE, cycles |-> 0, mod |-> 1, shift |-> 0, mult |-> 0, zero |-> 0]
Fact(p) == IF p[1] > 0 /\ p[2] > 0 THEN {<<p[2], p[3], p[1]>>} ELSE {}
(* What an event says: a fork where the child is; any timed event where the  *)
(* thread it was recorded in is.                                             *)
Says(t) == (IF t.k = "fork" THEN Fact(t.f) ELSE {})
           \cup (IF t.k = "sample" /\ t.f[3] > 0 THEN Fact(t.f) ELSE {})
           \cup (IF t.i[3] > 0 THEN Fact(t.i) ELSE {})
Step(t) ==
  CASE t.e = "Reset" -> seen' = {} /\ conv' = NoConv
    [] t.e = "Conv" -> conv' = [short |-> t.short, cycles |-> t.cycles, mod |-> t.mod, shift |-> t.shift,
                                mult |-> t.mult, zero |-> t.zero] /\ UNCHANGED seen
    [] t.e = "Event" -> seen' = seen \cup Says(t) /\ UNCHANGED conv
    \* the process a record of thread tid at the given counter value is put in
    [] t.e = "Query" -> /\ UNCHANGED <<seen, conv>>
                        /\ IF t.ctx THEN t.ok /\ t.r \in Owners(t.tid, Convert(conv, t.cycles))
                           ELSE IF Sole = {} THEN ~t.ok ELSE t.ok /\ t.r \in Sole
    [] OTHER -> FALSE
TInit == Init /\ l = 1 /\ conv = NoConv
TNext == l <= Len(Trace) /\ l' = l + 1 /\ Step(Trace[l])
TSpec == TInit /\ [][TNext]_tvars
=============================================================================
