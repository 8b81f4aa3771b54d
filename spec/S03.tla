--------------------------------- MODULE S03 ---------------------------------
(* From sampled taken and not-taken branches to execution ranges.            *)
(* Positions are instruction indices; -1 is anywhere outside the binary.     *)
EXTENDS Counters, TLC
CONSTANT Over           \* instructions looked at after the last target
VARIABLES taken,        \* counter of <<from, to>>
          nottaken      \* counter of positions

Init == taken = NoCounts /\ nottaken = NoCounts
Taken(f, t, n) == taken' = Inc(taken, <<f, t>>, n) /\ UNCHANGED nottaken
NotTaken(p, n) == nottaken' = Inc(nottaken, p, n) /\ UNCHANGED taken

Targets(tk) == {k[2] : k \in DOMAIN tk} \ {-1}
Arriving(tk) == FoldSet(LAMBDA k, acc : Inc(acc, k[2], tk[k]), NoCounts, DOMAIN tk)

(* How often each instruction runs: branches to it, plus what flows on from  *)
(* the one before it (all of it, or after a branch its not-taken count).     *)
(* A range is a maximal stretch with one count.                              *)
Ranges(tk, nt, stop(_)) ==
  LET T == Targets(tk)
      arr == Arriving(tk)
      lo == Min(T)
      hi == Max(T) + Over - 1
      step(acc, p) ==
        LET w == acc.w + Get(arr, p)
            br == w > 0 /\ stop(p)
            last == br \/ (p + 1) \in T \/ p = hi
        IN [w |-> IF br THEN Get(nt, p) ELSE w,
            start |-> IF last THEN p + 1 ELSE acc.start,
            tab |-> IF last /\ w > 0 THEN Inc(acc.tab, <<acc.start, p>>, w) ELSE acc.tab]
  IN IF T = {} THEN NoCounts
     ELSE FoldLeft(step, [w |-> 0, start |-> lo, tab |-> NoCounts], [i \in 1..hi - lo + 1 |-> lo + i - 1]).tab

(* Branches inside the binary are reported with their counts. *)
Branches(tk) == [k \in {k \in DOMAIN tk : k[1] # -1 /\ k[2] # -1} |-> tk[k]]
Sampled(tk, nt) == {k[1] : k \in DOMAIN tk} \cup DOMAIN nt
=============================================================================
