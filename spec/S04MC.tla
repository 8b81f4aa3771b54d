-------------------------------- MODULE S04MC --------------------------------
(* Threads change processes (exit and thread-number reuse, exec); every       *)
(* change is recorded, but records reach the file in any order. A compressed *)
(* table that drops repetitions answers as the full history does.            *)
EXTENDS S04
CONSTANTS Tids, PidSet, MaxTime, MaxEvents
VARIABLES now, owner, truth, buffer, table, n
mcv == <<seen, now, owner, truth, buffer, table, n>>
(* truth: <<tid, time, pid>> changes; table: tid -> set of <<time, pid>>.   *)
MCInit == /\ Init /\ now = 1 /\ owner = [t \in Tids |-> 0] /\ truth = {} /\ buffer = {}
          /\ table = [t \in Tids |-> {}] /\ n = 0
Tick == now < MaxTime /\ now' = now + 1 /\ UNCHANGED <<seen, owner, truth, buffer, table, n>>
Change(t, p) ==
  /\ n < MaxEvents /\ owner[t] # p /\ ~\E e \in seen \cup buffer : e[1] = t /\ e[2] = now
  /\ owner' = [owner EXCEPT ![t] = p] /\ truth' = truth \cup {<<t, now, p>>}
  /\ buffer' = buffer \cup {<<t, now, p>>} /\ n' = n + 1 /\ UNCHANGED <<seen, now, table>>
SampleThread(t) ==
  /\ n < MaxEvents /\ owner[t] # 0 /\ ~(\E e \in seen \cup buffer : e[1] = t /\ e[2] = now)
  /\ n' = n + 1 /\ buffer' = buffer \cup {<<t, now, owner[t]>>}
  /\ UNCHANGED <<seen, now, owner, truth, table>>
Before(s, x) == {e \in s : e[1] <= x}
Latest(s) == CHOOSE e \in s : \A f \in s : f[1] <= e[1]
Deliver == \E e \in buffer :
  /\ buffer' = buffer \ {e} /\ Seen(e[3], e[1], e[2])
  /\ table' = [table EXCEPT ![e[1]] = @ \cup {<<e[2], e[3]>>}]
  /\ UNCHANGED <<now, owner, truth, n>>
MCNext == Tick \/ Deliver \/ (\E t \in Tids, p \in PidSet : Change(t, p)) \/ (\E t \in Tids : SampleThread(t))
MCSpec == MCInit /\ [][MCNext]_mcv

TrueOwner(t, x) == LET k == {e \in truth : e[1] = t /\ e[2] <= x}
                   IN IF k = {} THEN t ELSE (CHOOSE e \in k : \A f \in k : f[2] <= e[2])[3]
Attributed == buffer = {} => \A t \in Tids, x \in 0..MaxTime + 1 : Owners(t, x) = {TrueOwner(t, x)}
Compact(s) == {e \in s : LET b == Before(s, e[1] - 1) IN b = {} \/ Latest(b)[2] # e[2]}
Compressed == \A t \in Tids, x \in 0..MaxTime + 1 :
  LET b == Before(Compact(table[t]), x) IN Owners(t, x) = IF b = {} THEN {t} ELSE {Latest(b)[2]}
=============================================================================
