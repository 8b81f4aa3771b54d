--------------------------------- MODULE Files -------------------------------
(* Delivering a list of recordings, some of which cannot be read right now.   *)
EXTENDS Integers, Sequences, TLC
Label(names, i) == "[" \o ToString(i) \o "/" \o ToString(Len(names)) \o "] " \o names[i]
Buffer(names, fs, i) == <<Label(names, i), fs[names[i]]>>
(* One step of a provider at position at (files delivered so far). *)
NextOf(names, fs, at) ==
  IF at = Len(names) THEN [ok |-> TRUE, r |-> << >>, at |-> at]
  ELSE IF names[at + 1] \notin DOMAIN fs THEN [ok |-> FALSE, r |-> << >>, at |-> at]
  ELSE [ok |-> TRUE, r |-> <<Buffer(names, fs, at + 1)>>, at |-> at + 1]
(* All that is left, or nothing. *)
AllOf(names, fs, at) ==
  IF \E i \in at + 1 .. Len(names) : names[i] \notin DOMAIN fs THEN [ok |-> FALSE, r |-> << >>, at |-> at]
  ELSE [ok |-> TRUE, r |-> [i \in 1 .. Len(names) - at |-> Buffer(names, fs, at + i)], at |-> Len(names)]
=============================================================================
