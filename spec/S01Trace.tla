------------------------------- MODULE S01Trace ------------------------------
EXTENDS S01, TraceLib
VARIABLE l

Key(p) == p
Tab(t) == [a |-> FromPairs(t.a), r |-> FromPairs(t.r), b |-> FromPairs(t.b)]
(* The recorded profile is exactly the specified one. *)
Is(t, v) == IsTable(t.a, v.a) /\ IsTable(t.r, v.r) /\ IsTable(t.b, v.b)

Observed(t, v) ==
  /\ Is(t, v)
  /\ t.total = TotalSamples(v)
  /\ Range(t.sampled) = Sampled(v) /\ Len(t.sampled) = Cardinality(Sampled(v))
  /\ \A i \in DOMAIN t.probe : t.probe[i][2] = Get(v.a, t.probe[i][1])

Step(t) ==
  CASE t.e = "Reset"  -> mem' = [x \in Readers |-> Empty] /\ disk' = << >>
    [] t.e = "IncA"   -> IncAddress(t.x, t.k, t.n) /\ Observed(t.st, mem'[t.x])
    [] t.e = "IncR"   -> IncRange(t.x, t.f, t.t, t.n) /\ Observed(t.st, mem'[t.x])
    [] t.e = "IncB"   -> IncBranch(t.x, t.f, t.t, t.n) /\ Observed(t.st, mem'[t.x])
    [] t.e = "SetA"   -> SetAddresses(t.x, FromPairs(t.tab)) /\ Observed(t.st, mem'[t.x])
    [] t.e = "Clear"  -> Clear(t.x) /\ Observed(t.st, mem'[t.x])
    [] t.e = "Merge"  -> Merge(t.x, t.y) /\ Observed(t.st, mem'[t.x])
    [] t.e = "Write"  -> t.ok /\ Write(t.x, t.f) /\ Observed(t.st, mem'[t.x])
                         \* the file itself: its tables, then what was given to follow them
                         /\ Is(t.tx, mem[t.x]) /\ t.tx.rest = t.aux
    [] t.e = "Append" -> /\ IF t.ok THEN AppendFile(t.x, t.f) ELSE AppendMissing(t.x, t.f)
                         /\ Observed(t.st, mem'[t.x])
    \* a fresh profile read from a file (opened by name, totals set)
    [] t.e = "Read"   -> /\ UNCHANGED vars
                         /\ t.ok = (t.f \in DOMAIN disk)
                         /\ t.ok => Is(t.st, disk[t.f]) /\ t.instr = TotalInstructions(disk[t.f])
    \* the merging tool run on files, its result installed as file o
    [] t.e = "Tool"   -> /\ t.ok
                         /\ LET old == IF t.o \in DOMAIN disk THEN disk[t.o] ELSE Empty
                                v == FoldLeft(LAMBDA acc, f : Add(acc, disk[f]), old, t.files)
                            IN disk' = Put(disk, t.o, v) /\ Is(t.st, v) /\ Is(t.tx, v) /\ t.tx.rest = ""
                         /\ UNCHANGED mem
    [] OTHER -> FALSE

TInit == Init /\ l = 1
TNext == l <= Len(Trace) /\ l' = l + 1 /\ Step(Trace[l])
TSpec == TInit /\ [][TNext]_<<vars, l>>
=============================================================================
