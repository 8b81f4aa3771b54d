-------------------------------- MODULE S01MC --------------------------------
(* Every history of operations over two profiles and one file, with a ghost  *)
(* multiset of contributions: the tables are always its sums.                *)
EXTENDS S01
VARIABLES ghost,    \* Readers -> sequence-free record of contributions: counter of <<kind, key>>
          fghost,   \* the same for files
          n
CONSTANT MaxOps

A == {1, 2}
MCInit == Init /\ ghost = [x \in Readers |-> NoCounts] /\ fghost = << >> /\ n = 0

G(x, kind, key, c) == ghost' = [ghost EXCEPT ![x] = Inc(@, <<kind, key>>, c)] /\ UNCHANGED fghost

MCNext ==
  /\ n < MaxOps /\ n' = n + 1
  /\ \/ \E x \in Readers, k \in A, c \in {1, 2} : IncAddress(x, k, c) /\ G(x, "a", <<k, k>>, c)
     \/ \E x \in Readers, k \in A : IncRange(x, 1, k, 1) /\ G(x, "r", <<1, k>>, 1)
     \/ \E x \in Readers, k \in A : IncBranch(x, k, 1, 1) /\ G(x, "b", <<k, 1>>, 1)
     \/ \E x, y \in Readers : Merge(x, y) /\ UNCHANGED fghost
                              /\ ghost' = [ghost EXCEPT ![x] = Plus(@, ghost[y])]
     \/ \E x \in Readers, f \in Files : Write(x, f) /\ fghost' = Put(fghost, f, ghost[x]) /\ UNCHANGED ghost
     \/ \E x \in Readers, f \in Files : AppendFile(x, f) /\ ghost' = [ghost EXCEPT ![x] = Plus(@, fghost[f])] /\ UNCHANGED fghost
     \/ \E x \in Readers : Clear(x) /\ ghost' = [ghost EXCEPT ![x] = NoCounts] /\ UNCHANGED fghost
MCSpec == MCInit /\ [][MCNext]_<<vars, ghost, fghost, n>>

Flat(t) ==
  LET S == {<<"a", <<k, k>>>> : k \in DOMAIN t.a} \cup {<<"r", k>> : k \in DOMAIN t.r}
           \cup {<<"b", k>> : k \in DOMAIN t.b}
  IN [e \in S |-> IF e[1] = "a" THEN t.a[e[2][1]] ELSE IF e[1] = "r" THEN t.r[e[2]] ELSE t.b[e[2]]]

Additive == \A x \in Readers : Flat(mem[x]) = ghost[x]
FileAdditive == \A f \in DOMAIN disk : Flat(disk[f]) = fghost[f]
MergeCommutes == \A x, y \in Readers : Add(mem[x], mem[y]) = Add(mem[y], mem[x])
EmptyNeutral == \A x \in Readers : Add(mem[x], Empty) = mem[x]
=============================================================================
