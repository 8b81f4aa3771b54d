------------------------------- MODULE GcovMC -------------------------------
(* The buffered reader and writer of gcov.cc keep to Gcov.tla: a file is    *)
(* what was written, and every read returns the bytes at the position the   *)
(* reads before it have reached, whatever the buffer held.                  *)
EXTENDS Gcov, TLC
CONSTANTS Sizes, MaxItems, Block, MaxReads, Cuts

VARIABLES phase, c, file, buf, off, alloc, fpos, pos, okay, reads
vars == <<phase, c, file, buf, off, alloc, fpos, pos, okay, reads>>

Min2(a, b) == IF a < b THEN a ELSE b
Fresh(n, k) == [i \in 1..n |-> k + i]        \* distinguishable bytes

Init == /\ phase = "w" /\ c = <<>> /\ file = <<>> /\ buf = <<>> /\ off = 0
        /\ alloc = 0 /\ fpos = 0 /\ pos = 0 /\ okay = TRUE /\ reads = 0

Grown(need) == (IF alloc = 0 THEN Block ELSE alloc) + need
Allocated(need) == IF need > alloc THEN 2 * Grown(need) ELSE alloc

Write(n) ==
  /\ phase = "w" /\ reads < MaxItems
  /\ alloc' = Allocated(off + n)
  /\ buf' = buf \o Fresh(n, Len(c)) /\ off' = off + n
  /\ c' = c \o Fresh(n, Len(c))
  /\ reads' = reads + 1
  /\ UNCHANGED <<phase, file, fpos, pos, okay>>

(* The file is written when it is closed; it may lose its end afterwards.   *)
Close(cut) ==
  /\ phase = "w"
  /\ file' = SubSeq(buf, 1, off)
  /\ okay' = (file' = c)
  /\ c' = SubSeq(c, 1, Len(c) - Min2(cut, Len(c)))
  /\ phase' = "r" /\ buf' = <<>> /\ off' = 0 /\ fpos' = 0 /\ pos' = 0 /\ reads' = 0
  /\ UNCHANGED alloc

ReadBytes(n) ==
  /\ phase = "r" /\ reads < MaxReads
  /\ LET t == Take(c, pos, n)
         ex == Len(buf) - off
         b1 == SubSeq(buf, off + 1, Len(buf))
         a1 == Allocated(ex + n)
         got == SubSeq(c, fpos + 1, Min2(Len(c), fpos + a1 - ex))
         b2 == b1 \o got
     IN /\ pos' = t.pos
        /\ IF ex >= n
           THEN /\ off' = off + n
                /\ okay' = (okay /\ t.ok /\ t.b = SubSeq(buf, off + 1, off + n))
                /\ UNCHANGED <<buf, alloc, fpos>>
           ELSE /\ alloc' = a1
                /\ fpos' = fpos + Len(got)
                /\ IF Len(b2) < n
                   THEN buf' = <<>> /\ off' = 0 /\ okay' = (okay /\ ~t.ok)
                   ELSE /\ buf' = b2 /\ off' = n
                        /\ okay' = (okay /\ t.ok /\ t.b = SubSeq(b2, 1, n))
  /\ reads' = reads + 1
  /\ UNCHANGED <<phase, c, file>>

Next == \/ \E n \in Sizes : Write(n) \/ ReadBytes(n)
        \/ \E k \in Cuts : Close(k)
Spec == Init /\ [][Next]_vars

Faithful == okay
Fits == phase = "r" => Len(buf) <= alloc

(* Reading what was encoded gives it back, for strings and numbers.         *)
Strings == UNION {[1..n -> {1, 255}] : n \in 0..5}
ASSUME \A ver \in {1, 2, 3}, s \in Strings :
         LET e == <<7, 7>> \o Encode(ver, "s", s) \o <<9, 9, 9, 9>>
             r == Read(ver, "s", e, 2)
         IN r.v = s /\ r.pos = Len(e) - 4 /\ Read(ver, "u", e, r.pos).v = <<9, 9, 9, 9>>
ASSUME \A n \in {0, 1, 255, 256, 65535, 65536, 16777216, 2147483647} : Number(Word(n)) = n
=============================================================================
