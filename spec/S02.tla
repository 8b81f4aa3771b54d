--------------------------------- MODULE S02 ---------------------------------
(* From hardware samples with a last-branch stack to count tables.           *)
(* A sample is [ip, stack]; a place is [own, off] (own: in the profiled      *)
(* binary); a stack entry is [f, t, wp], newest first, wp: wrong path.       *)
EXTENDS Counters, TLC

CONSTANT MaxRange       \* longest believable straight-line stretch
VARIABLES tabs          \* [a, r, b] tables
Empty == [a |-> NoCounts, r |-> NoCounts, b |-> NoCounts]
Add(x, y) == [a |-> Plus(x.a, y.a), r |-> Plus(x.r, y.r), b |-> Plus(x.b, y.b)]

(* Entries that were on the executed path, newest first. *)
Valid(stack) == SelectSeq(stack, LAMBDA e : ~e.wp)
(* The known hardware fault: the newest entry recorded twice. *)
DupTop(stack, stride) ==
  /\ Len(stack) > 1 /\ ~stack[1].wp /\ ~stack[2].wp
  /\ stack[1].f.off = stack[2].f.off /\ stack[1].t.off = stack[2].t.off
  /\ (stack[1].f.off - stack[1].t.off > stride \/ stack[1].f.off < stack[1].t.off)

(* What stack entry i (older than entry i-1) contributes: the code from its  *)
(* target up to the next newer branch, and the branch itself.                *)
Older(v, i) ==
  LET e == v[i]
      n == v[i - 1]
      ok == e.t.own /\ e.t.off <= n.f.off /\ n.f.off - e.t.off <= MaxRange
  IN [a |-> NoCounts,
      r |-> IF ok THEN Inc(NoCounts, <<e.t.off, n.f.off>>, 1) ELSE NoCounts,
      b |-> IF ok /\ e.f.own THEN Inc(NoCounts, <<e.f.off, e.t.off>>, 1) ELSE NoCounts]

Contribution(s, stride) ==
  LET v == Valid(s.stack)
      first == [a |-> IF s.ip.own THEN Inc(NoCounts, s.ip.off, 1) ELSE NoCounts,
                r |-> NoCounts,
                b |-> IF v # << >> /\ v[1].f.own /\ v[1].t.own
                      THEN Inc(NoCounts, <<v[1].f.off, v[1].t.off>>, 1) ELSE NoCounts]
      idx == {i \in 2..Len(v) : ~(i = 2 /\ DupTop(s.stack, stride))}
  IN FoldSet(LAMBDA i, acc : Add(acc, Older(v, i)), first, idx)

Init == tabs = Empty
Sample(s, stride) == tabs' = Add(tabs, Contribution(s, stride))
=============================================================================
