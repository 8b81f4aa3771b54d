------------------------------- MODULE S03Trace ------------------------------
EXTENDS S03, TraceLib
VARIABLES l,
          tabs      \* accumulated [b, r] of a reader over several recordings
tvars == <<taken, nottaken, l, tabs>>
NoTabs == [b |-> NoCounts, r |-> NoCounts]

Taks(t) == FoldLeft(LAMBDA acc, p : Inc(acc, <<p[1], p[2]>>, p[3]), NoCounts, t.taken)
Nots(t) == FoldLeft(LAMBDA acc, p : Inc(acc, p[1], p[2]), NoCounts, t.nottaken)
(* A position that is a branch, or where there is no code to look at. *)
Stop(t, p) == p \in Range(t.br) \/ p < t.lo \/ p >= t.hi
Inside(m, x) == IF x >= m.start /\ x < m.start + m.len THEN x - m.start + m.pgoff ELSE -1

(* Records [ip, target, retired, branch, conditional, not taken] of a trace. *)
IsNot(r) == r[5] = 1 /\ r[6] = 1
Used(r) == r[3] = 1 /\ r[4] = 1
RecTaken(rs, pos(_), keep(_, _)) ==
  FoldLeft(LAMBDA acc, r : IF Used(r) /\ ~IsNot(r) /\ keep(pos(r[1]), pos(r[2]))
                           THEN Inc(acc, <<pos(r[1]), pos(r[2])>>, 1) ELSE acc, NoCounts, rs)
RecNot(rs, pos(_)) ==
  FoldLeft(LAMBDA acc, r : IF Used(r) /\ IsNot(r) /\ pos(r[1]) # -1 THEN Inc(acc, pos(r[1]), 1) ELSE acc, NoCounts, rs)

Step(t) ==
  CASE t.e = "Reset" -> taken' = NoCounts /\ nottaken' = NoCounts /\ tabs' = NoTabs
    \* the conversion itself
    [] t.e = "Convert" ->
       /\ taken' = Taks(t) /\ nottaken' = Nots(t) /\ UNCHANGED tabs
       /\ t.ok /\ IsTable(t.b, Branches(taken'))
       /\ IsTable(t.r, Ranges(taken', nottaken', LAMBDA p : Stop(t, p)))
    \* a recording read by the stand-alone reader: only what is in the mapping
    [] t.e = "Simple" ->
       LET pos(x) == Inside(t.map, x)
           tk == RecTaken(t.recs, pos, LAMBDA f, g : f # -1 /\ g # -1)
           nt == RecNot(t.recs, pos)
           some == tk # NoCounts \/ nt # NoCounts
           rg == Ranges(tk, nt, LAMBDA p : p \in Sampled(tk, nt))
       IN /\ taken' = tk /\ nottaken' = nt
          /\ t.ok = some
          /\ tabs' = IF some THEN [b |-> Plus(tabs.b, tk), r |-> Plus(tabs.r, rg)] ELSE tabs
          /\ IsTable(t.b, tabs'.b) /\ IsTable(t.r, tabs'.r)
    \* a recording read by the full reader
    [] t.e = "Full" ->
       LET pos(x) == Inside(t.map, x)
           tk == RecTaken(t.recs, pos, LAMBDA f, g : TRUE)
           nt == RecNot(t.recs, pos)
           stop(p) == IF t.how = "disassembly" THEN Stop(t, p) ELSE p \in Sampled(tk, nt)
       IN /\ taken' = tk /\ nottaken' = nt /\ t.ok
          /\ tabs' = [b |-> Plus(tabs.b, Branches(tk)), r |-> Plus(tabs.r, Ranges(tk, nt, stop))]
          /\ IsTable(t.b, tabs'.b) /\ IsTable(t.r, tabs'.r)
    [] OTHER -> FALSE
TInit == Init /\ l = 1 /\ tabs = NoTabs
TNext == l <= Len(Trace) /\ l' = l + 1 /\ Step(Trace[l])
TSpec == TInit /\ [][TNext]_tvars
=============================================================================
