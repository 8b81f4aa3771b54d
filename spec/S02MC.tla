-------------------------------- MODULE S02MC --------------------------------
(* A processor executing straight-line stretches ended by taken branches, in  *)
(* two binaries, with a branch stack of K entries into which wrong-path       *)
(* entries and, at the end, a duplicate of the newest entry may creep.        *)
EXTENDS S02
CONSTANTS Places, Foreign, K, MaxOps, Stride
VARIABLES pc, lbr, done, dup
mvars == <<tabs, pc, lbr, done, dup>>

P == {[own |-> TRUE, off |-> n] : n \in Places} \cup {[own |-> FALSE, off |-> n] : n \in Foreign}
Push(s, e) == SubSeq(<<e>> \o s, 1, Min2(K, Len(s) + 1))

MCInit == Init /\ pc = [own |-> TRUE, off |-> 0] /\ lbr = << >> /\ done = << >> /\ dup = FALSE
(* done: executed stretches and the branch that ended each, newest first. *)
Branch == \E f, t \in P :
  /\ f.own = pc.own /\ f.off >= pc.off
  /\ lbr' = Push(lbr, [f |-> f, t |-> t, wp |-> FALSE])
  /\ done' = <<[s |-> pc, f |-> f, t |-> t]>> \o done
  /\ pc' = t /\ UNCHANGED <<tabs, dup>>
WrongPath == \E f, t \in P :
  /\ lbr' = Push(lbr, [f |-> f, t |-> t, wp |-> TRUE]) /\ UNCHANGED <<tabs, pc, done, dup>>
Duplicate ==
  /\ lbr # << >> /\ ~lbr[1].wp /\ lbr[1].f.off - lbr[1].t.off > Stride
  /\ lbr[1].f.own /\ lbr[1].t.own
  /\ lbr' = Push(lbr, lbr[1]) /\ dup' = TRUE /\ UNCHANGED <<tabs, pc, done>>
MCNext == ~dup /\ Len(done) < MaxOps /\ (Branch \/ WrongPath \/ Duplicate)
MCSpec == MCInit /\ [][MCNext]_mvars
Bound == Len(lbr) <= K

(* A legitimate self-branch over a long stretch looks like the fault and is  *)
(* dropped; the claim is about the others.                                   *)
LongSelf == \E i \in 1..Len(done) - 1 :
  done[i].f = done[i+1].f /\ done[i].t = done[i+1].t /\ done[i].f.off - done[i].t.off > Stride

(* Sampling now reports exactly the last stretches that were executed. *)
Truth ==
  LET n == Len(Valid(lbr)) - (IF dup THEN 1 ELSE 0)
      own == {i \in 1..n - 1 : done[i].s.own}
  IN [a |-> NoCounts,
      r |-> FoldSet(LAMBDA i, acc : Inc(acc, <<done[i].s.off, done[i].f.off>>, 1), NoCounts, own),
      b |-> FoldSet(LAMBDA i, acc : Inc(acc, <<done[i].f.off, done[i].t.off>>, 1), NoCounts,
              {i \in 1..n : done[i].f.own /\ done[i].t.own})]
(* A stretch is at most MaxRange long here. *)
Exact ==
  ~LongSelf => Contribution([ip |-> [own |-> FALSE, off |-> 0], stack |-> lbr], Stride) = Truth
NotLong == \A i \in DOMAIN done : done[i].f.off - done[i].s.off <= MaxRange
Inv == NotLong => Exact
=============================================================================
