--------------------------------- MODULE S05 ---------------------------------
(* Which mappings belong to the profiled binary, where runtime addresses lie *)
(* in it, and what branch stacks and trace records add up to.                *)
(* A name is the sequence of its path components (absolute: first is "").   *)
EXTENDS Counters, TLC

KernelPid == -1
Invalid == -1
KernelNames == {<<"[kernel.kallsyms]">>, <<"[kernel.kallsyms]_text">>, <<"[kernel.kallsyms]_stext">>}
Absolute(n) == n[1] = "" /\ Len(n) > 1
(* Does a mapping's name denote one of the wanted names? *)
Denotes(wanted, name) ==
  IF wanted = {<<"[kernel.kallsyms]">>} THEN name \in KernelNames
  ELSE \/ \E w \in wanted : Absolute(w) /\ w = name
       \/ \E w \in wanted : ~Absolute(w) /\ Last(w) = Last(name)
(* Names a build id is recorded on. *)
NamesOf(id, ids) == {ids[i].name : i \in {j \in DOMAIN ids : ids[j].id = id /\ ~ids[j].anon /\ ids[j].name # <<"">>}}

VARIABLES bin,      \* [pie, segs]; a segment is [off, va, size]
          maps      \* pid -> set of [start, len, pgoff]
Init == bin = [pie |-> FALSE, segs |-> << >>] /\ maps = << >>

Of(pid) == IF pid \in DOMAIN maps THEN maps[pid] ELSE {}
Overlap(m, n) == m.start < n.start + n.len /\ n.start < m.start + m.len
(* One more mapping of the binary in process pid. *)
Conflict(ms, pid, m) == pid \in DOMAIN ms /\ \E n \in ms[pid] : n # m /\ Overlap(m, n)
AddMap(ms, pid, m) == [p \in DOMAIN ms \cup {pid} |-> (IF p \in DOMAIN ms THEN ms[p] ELSE {}) \cup (IF p = pid THEN {m} ELSE {})]
(* The mappings a recording shows, or "conflict". *)
RECURSIVE Select(_, _, _)
Select(ms, evs, wanted) ==
  IF evs = << >> THEN [ok |-> TRUE, maps |-> ms]
  ELSE LET e == Head(evs)
           m == [start |-> e.start, len |-> e.len, pgoff |-> e.pgoff]
       IN IF ~Denotes(wanted, e.name) THEN Select(ms, Tail(evs), wanted)
          ELSE IF Conflict(ms, e.pid, m) THEN [ok |-> FALSE, maps |-> << >>]
          ELSE Select(AddMap(ms, e.pid, m), Tail(evs), wanted)

(* The binary address of runtime address x of process pid. *)
Translate(pid, x) ==
  LET ms == {m \in Of(pid) : m.start <= x /\ x < m.start + m.len}
  IN IF ms = {} THEN Invalid
     ELSE LET m == CHOOSE k \in ms : TRUE
              kernel == pid = KernelPid
              pos == IF kernel THEN x - m.start ELSE x - m.start + m.pgoff
              off(i) == IF kernel THEN bin.segs[i].off - bin.segs[1].off ELSE bin.segs[i].off
              in == {i \in DOMAIN bin.segs : off(i) <= pos /\ pos < off(i) + bin.segs[i].size}
          IN IF ~kernel /\ ~bin.pie THEN x
             ELSE IF in = {} THEN Invalid
             ELSE LET i == Min(in) IN pos - off(i) + bin.segs[i].va

KernelMode == KernelPid \in DOMAIN maps
(* Tables of branches and fall-throughs. A stack is newest first. *)
NoFlow == [b |-> NoCounts, f |-> NoCounts]
Lbr(sm) ==
  LET one(s) ==
        IF KernelMode \/ (s.has /\ s.pid \in DOMAIN maps)
        THEN LET pid == IF KernelMode THEN KernelPid ELSE s.pid
                 tr == [i \in DOMAIN s.stack |-> <<Translate(pid, s.stack[i][1]), Translate(pid, s.stack[i][2])>>]
                 n == Len(tr)
                 \* an unknown end leaves the stretch open
                 open == SelectSeq([i \in 1..n - 1 |-> <<tr[i + 1][2], tr[i][1]>>],
                                   LAMBDA p : p[1] # Invalid /\ (p[2] = Invalid \/ p[1] <= p[2]))
             IN [b |-> FromPairs([i \in 1..n |-> <<tr[i], 1>>]),
                 f |-> FromPairs([i \in DOMAIN open |-> <<open[i], 1>>])]
        ELSE NoFlow
  IN FoldLeft(LAMBDA acc, s : LET o == one(s) IN [b |-> Plus(acc.b, o.b), f |-> Plus(acc.f, o.f)], NoFlow, sm)

(* Trace records: [pid, from, to, retired, branch, cond, nottaken]. *)
Spe(rs) ==
  FoldLeft(LAMBDA acc, r :
      LET pid == IF KernelMode THEN KernelPid ELSE r.pid
      IN IF pid \notin DOMAIN maps \/ ~r.retired \/ ~r.branch THEN acc
         ELSE IF r.cond /\ r.nottaken THEN [acc EXCEPT !.n = Inc(@, Translate(pid, r.from), 1)]
         ELSE [acc EXCEPT !.t = Inc(@, <<Translate(pid, r.from), Translate(pid, r.to)>>, 1)],
    [t |-> NoCounts, n |-> NoCounts], rs)
=============================================================================
