------------------------------- MODULE S02Trace ------------------------------
EXTENDS S02, TraceLib
VARIABLES l,
          maps,     \* memory mappings seen in this recording, in order
          times,    \* when each of the binary's addresses was first sampled
          cfg       \* names: own names in regex mode, or "id" and its pairs; stride

tvars == <<tabs, l, maps, times, cfg>>

(* Names of the profiled binary: by name, or all those its build id is on. A *)
(* kernel build id stands for the kernel's mapping names too.                *)
KernelNames == {"[kernel.kallsyms]", "[kernel.kallsyms]_stext", "[kernel.kallsyms]_text"}
Own(c, pairs) ==
  IF c.mode = "re" THEN Range(c.own)
  ELSE LET mine == {pairs[i] : i \in {j \in DOMAIN pairs : pairs[j].id = c.id}}
       IN UNION {IF p.kernel THEN KernelNames ELSE {p.name} : p \in mine}
IsKernel(c, pairs) == c.mode = "id" /\ \E i \in DOMAIN pairs : pairs[i].id = c.id /\ pairs[i].kernel

(* Where a runtime address lies: the newest mapping of the process. *)
Place(pid, x) ==
  LET hits == {i \in DOMAIN maps : maps[i].pid \in {pid, -1} /\ x >= maps[i].start /\ x < maps[i].start + maps[i].len}
  IN IF hits = {} THEN [own |-> FALSE, off |-> -1]
     ELSE LET m == maps[Max(hits)]
          IN [own |-> m.name \in cfg.names, off |-> x - m.start + m.pgoff]
Placed(t) ==
  [ip |-> Place(t.pid, t.ip),
   stack |-> [i \in DOMAIN t.stack |->
      [f |-> Place(t.pid, t.stack[i][1]), t |-> Place(t.pid, t.stack[i][2]), wp |-> t.stack[i][3] = 1]]]

Is(t, v) == IsTable(t.a, v.a) /\ IsTable(t.r, v.r) /\ IsTable(t.b, v.b)

(* The first sample of an address, in the order recorded, dates it.          *)
Dated(s, time) ==
  IF s.ip.own /\ s.ip.off \notin DOMAIN times THEN Inc(times, s.ip.off, time) ELSE times

Step(t) ==
  CASE t.e = "Reset" -> tabs' = Empty /\ maps' = << >> /\ times' = NoCounts /\ cfg' = [names |-> {}]
    [] t.e = "Config" -> cfg' = [c |-> t, names |-> {}, kernel |-> FALSE] /\ UNCHANGED <<tabs, maps, times>>
    \* a recording starts: mappings of the previous one are gone
    [] t.e = "File" -> maps' = << >> /\ UNCHANGED <<tabs, times>>
                       /\ cfg' = [cfg EXCEPT !.names = Own(cfg.c, t.ids),
                                             !.kernel = @ \/ IsKernel(cfg.c, t.ids)]
    [] t.e = "Map" -> maps' = Append(maps, [pid |-> t.pid, start |-> t.start, len |-> t.len, pgoff |-> t.pgoff, name |-> t.name])
                      /\ UNCHANGED <<tabs, times, cfg>>
    [] t.e = "Sample" -> LET p == TLCEval(Placed(t))
                         IN Sample(p, cfg.c.stride) /\ times' = Dated(p, t.time) /\ UNCHANGED <<maps, cfg>>
    \* the reader's tables after it consumed the recording
    [] t.e = "Tables" -> t.ok /\ Is(t.st, tabs) /\ IsTable(t.st.t, times) /\ t.kernel = cfg.kernel /\ UNCHANGED <<tabs, maps, times, cfg>>
    [] t.e = "Bad" -> ~t.ok /\ Is(t.st, tabs) /\ UNCHANGED <<tabs, maps, times, cfg>>
    [] OTHER -> FALSE

TInit == Init /\ l = 1 /\ maps = << >> /\ times = NoCounts /\ cfg = [names |-> {}]
TNext == l <= Len(Trace) /\ l' = l + 1 /\ Step(Trace[l])
TSpec == TInit /\ [][TNext]_tvars
=============================================================================
