--------------------------------- MODULE S04 ---------------------------------
(* Which process a thread belonged to when. *)
EXTENDS Integers, Sequences, FiniteSets, FiniteSetsExt, SequencesExt, TLC

VARIABLES seen      \* set of <<tid, time, pid>>: thread tid was in pid at time
Init == seen = {}
(* A recorded fork or a timed event; events without a process say nothing. *)
Seen(pid, tid, time) == seen' = IF pid > 0 /\ tid > 0 THEN seen \cup {<<tid, time, pid>>} ELSE seen
Pids == {e[3] : e \in seen}

(* The processes a record of thread tid at the given time may be put in: the *)
(* latest known one (any, if several are recorded for that very moment).     *)
Owners(tid, time) ==
  LET known == {e \in seen : e[1] = tid /\ e[2] <= time}
      last == Max({e[2] : e \in known})
  IN IF known = {} THEN {tid} ELSE {e[3] : e \in {x \in known : x[2] = last}}
(* A record without a thread context. *)
Sole == IF Cardinality(Pids) = 1 THEN Pids ELSE {}

(* Counter ticks to nanoseconds, as the kernel defines it. *)
RECURSIVE Pow2(_)
Pow2(k) == IF k = 0 THEN 1 ELSE 2 * Pow2(k - 1)
Convert(c, cycles) ==
  LET cyc == IF c.short THEN c.cycles + ((cycles - c.cycles) % c.mod) ELSE cycles
      q == cyc \div Pow2(c.shift)
      r == cyc % Pow2(c.shift)
  IN c.zero + q * c.mult + (r * c.mult) \div Pow2(c.shift)
=============================================================================
