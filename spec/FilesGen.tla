------------------------------- MODULE FilesGen ------------------------------
EXTENDS FilesMC, Json, Randomization
VARIABLE h
D(r) == h' = Append(h, r)
GInit == MCInit /\ names \in RandomSubset(3, [1 .. Longest -> FileNames]) /\ fs = << >> /\ h = << >>
GNext == \/ \E n \in FileNames : \/ Del(n) /\ D([op |-> "del", name |-> n])
                                 \/ \E c \in {"x", "y"} : Put(n, c) /\ D([op |-> "put", name |-> n, c |-> c, n |-> 1])
         \/ Ask /\ D([op |-> "next"])
         \/ Ask /\ D([op |-> "one"])
         \/ AskAll /\ D([op |-> "all"])
         \/ Ask /\ at' > at /\ D([op |-> "next"])
GSpec == GInit /\ [][GNext]_<<fv, h>>
Emit == ops = MostOps => PrintT("@@" \o ToJson([names |-> names, ops |-> h]))
=============================================================================
