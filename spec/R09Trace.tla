------------------------------- MODULE R09Trace ------------------------------
(* Validates what the provider of recordings delivered.                       *)
EXTENDS Files, TraceLib
VARIABLES l, names, fs, at
tvars == <<l, names, fs, at>>
Same == UNCHANGED <<names, fs, at>>
Ans(t, e) == t.ok = e.ok /\ t.r = e.r /\ at' = e.at /\ UNCHANGED <<names, fs>>
Op(t) ==
  CASE t.op = "put" -> fs' = [x \in DOMAIN fs \cup {t.name} |-> IF x = t.name THEN t.c ELSE fs[x]] /\ UNCHANGED <<names, at>>
    [] t.op = "del" -> fs' = [x \in DOMAIN fs \ {t.name} |-> fs[x]] /\ UNCHANGED <<names, at>>
    [] t.op \in {"next", "one"} -> Ans(t, NextOf(names, fs, at))
    [] t.op = "all" -> Ans(t, AllOf(names, fs, at))
    [] OTHER -> FALSE
Step(t) ==
  CASE t.e = "Reset" -> names' = << >> /\ fs' = << >> /\ at' = 0
    [] t.e = "Names" -> names' = t.names /\ UNCHANGED <<fs, at>>
    [] t.e = "Op" -> Op(t)
    [] OTHER -> FALSE
TInit == l = 1 /\ names = << >> /\ fs = << >> /\ at = 0
TNext == l <= Len(Trace) /\ l' = l + 1 /\ Step(Trace[l])
TSpec == TInit /\ [][TNext]_tvars
=============================================================================
