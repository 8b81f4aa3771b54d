------------------------------ MODULE Counters ------------------------------
(* Counters: partial functions from keys to numbers, as the profile tables. *)
EXTENDS Integers, Sequences, FiniteSets, FiniteSetsExt, SequencesExt, TLC

NoCounts == << >>
Get(b, k) == IF k \in DOMAIN b THEN b[k] ELSE 0
Put(b, k, n) == TLCEval([x \in DOMAIN b \cup {k} |-> IF x = k THEN n ELSE b[x]])
Inc(b, k, n) == Put(b, k, Get(b, k) + n)
Plus(a, b) == TLCEval([x \in DOMAIN a \cup DOMAIN b |-> Get(a, x) + Get(b, x)])
(* Sum of f over a finite set S. *)
SumOver(S, f(_)) == FoldSet(LAMBDA x, acc : acc + f(x), 0, S)
Total(b) == SumOver(DOMAIN b, LAMBDA k : b[k])
(* Sum of f over the elements of a sequence. *)
SumSeq(s, f(_)) == FoldLeft(LAMBDA acc, x : acc + f(x), 0, s)
(* <<key, n>> pairs in a sequence, added up. *)
FromPairs(s) == FoldLeft(LAMBDA acc, p : Inc(acc, p[1], p[2]), NoCounts, s)
(* A table given as <<key, n>> pairs is exactly b, each key once. *)
IsTable(s, b) == /\ Len(s) = Cardinality(DOMAIN b)
                 /\ \A i \in DOMAIN s : s[i][1] \in DOMAIN b /\ b[s[i][1]] = s[i][2]
                 /\ \A i, j \in DOMAIN s : s[i][1] = s[j][1] => i = j
Max2(a, b) == IF a > b THEN a ELSE b
Min2(a, b) == IF a < b THEN a ELSE b
=============================================================================
