--------------------------------- MODULE S01 ---------------------------------
(* Raw sample profiles: count tables per address, per executed range and per *)
(* branch; merging, appending, writing as text and reading back.             *)
EXTENDS Counters, TLC

CONSTANTS Readers,    \* in-memory profiles
          Files       \* file names

VARIABLES mem,        \* Readers -> [a, r, b] tables
          disk        \* Files -> [a, r, b] tables (a subset of the files exist)

vars == <<mem, disk>>

Empty == [a |-> NoCounts, r |-> NoCounts, b |-> NoCounts]
Add(x, y) == [a |-> Plus(x.a, y.a), r |-> Plus(x.r, y.r), b |-> Plus(x.b, y.b)]

Init == mem = [x \in Readers |-> Empty] /\ disk = << >>

Upd(x, v) == mem' = [mem EXCEPT ![x] = v] /\ UNCHANGED disk

IncAddress(x, k, n)  == Upd(x, [mem[x] EXCEPT !.a = Inc(@, k, n)])
IncRange(x, f, t, n)  == Upd(x, [mem[x] EXCEPT !.r = Inc(@, <<f, t>>, n)])
IncBranch(x, f, t, n) == Upd(x, [mem[x] EXCEPT !.b = Inc(@, <<f, t>>, n)])
SetAddresses(x, tab)  == Upd(x, [mem[x] EXCEPT !.a = tab])
Clear(x)              == Upd(x, Empty)
Merge(x, y)           == Upd(x, Add(mem[x], mem[y]))
Write(x, f)           == disk' = Put(disk, f, mem[x]) /\ UNCHANGED mem
(* Reading a file adds its content; a missing file changes nothing.  *)
AppendFile(x, f)         == f \in DOMAIN disk /\ Upd(x, Add(mem[x], disk[f]))
AppendMissing(x, f)   == f \notin DOMAIN disk /\ UNCHANGED vars

(* What is observed of a profile. *)
TotalSamples(t) == IF DOMAIN t.r # {} THEN Total(t.r) ELSE Total(t.a)
(* After a fresh read: instructions executed when there are ranges. *)
TotalInstructions(t) ==
  IF DOMAIN t.r # {}
  THEN SumOver(DOMAIN t.r, LAMBDA k : t.r[k] * (1 + k[2] - k[1]))
  ELSE Total(t.a)
Sampled(t) == IF DOMAIN t.r # {} THEN {k[1] : k \in DOMAIN t.r} ELSE DOMAIN t.a
=============================================================================
