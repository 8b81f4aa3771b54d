-------------------------------- MODULE FilesMC ------------------------------
(* A consumer asking for recordings while files come and go.                  *)
EXTENDS Files, FiniteSets
CONSTANTS FileNames, Longest, MostOps
VARIABLES names, fs, at, got, was, ops
fv == <<names, fs, at, got, was, ops>>
MCInit == /\ names \in UNION {[1 .. n -> FileNames] : n \in 0 .. Longest} /\ at = 0 /\ got = << >> /\ was = << >> /\ ops = 0
          /\ fs \in [FileNames -> {"x"}] \cup {<< >>}
May == ops < MostOps /\ ops' = ops + 1 /\ UNCHANGED names
Put(n, c) == May /\ fs' = [x \in DOMAIN fs \cup {n} |-> IF x = n THEN c ELSE fs[x]] /\ UNCHANGED <<at, got, was>>
Del(n) == May /\ n \in DOMAIN fs /\ fs' = [x \in DOMAIN fs \ {n} |-> fs[x]] /\ UNCHANGED <<at, got, was>>
Take(e) == May /\ at' = e.at /\ got' = got \o e.r /\ was' = was \o [i \in 1 .. e.at - at |-> fs[names[at + i]]] /\ UNCHANGED fs
Ask == Take(NextOf(names, fs, at))
AskAll == Take(AllOf(names, fs, at))
MCNext == \/ \E n \in FileNames : Del(n) \/ \E c \in {"x", "y"} : Put(n, c)
          \/ Ask \/ AskAll
MCSpec == MCInit /\ [][MCNext]_fv /\ WF_fv(Ask)
(* What was delivered are the first files of the list, each once, in order,   *)
(* as they were when delivered.                                               *)
Prefix == Len(got) <= Len(names) /\ Len(got) = at
          /\ \A i \in DOMAIN got : got[i] = <<Label(names, i), was[i]>>
(* An error loses nothing; the end stays the end.                             *)
Errors == /\ ~NextOf(names, fs, at).ok => NextOf(names, fs, at).at = at
          /\ ~AllOf(names, fs, at).ok => AllOf(names, fs, at).at = at
          /\ at = Len(names) => NextOf(names, fs, at) = [ok |-> TRUE, r |-> << >>, at |-> at]
                                /\ AllOf(names, fs, at) = [ok |-> TRUE, r |-> << >>, at |-> at]
(* Asking for all is asking for each. *)
RECURSIVE Each(_)
Each(p) == IF p = Len(names) THEN << >> ELSE NextOf(names, fs, p).r \o Each(NextOf(names, fs, p).at)
Same == AllOf(names, fs, at).ok => AllOf(names, fs, at).r = Each(at)
Grows == [][Len(got') >= Len(got) /\ SubSeq(got', 1, Len(got)) = got]_fv
=============================================================================
