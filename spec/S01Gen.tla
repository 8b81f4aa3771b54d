-------------------------------- MODULE S01Gen -------------------------------
(* Behaviours of S01 printed as scripts for the implementation. *)
EXTENDS S01, Json
VARIABLE hist
CONSTANT Depth
H(op) == hist' = Append(hist, op)

A == {0, 1, 4, 7}
GInit == Init /\ hist = << >>
GNext ==
  \/ \E x \in Readers, k \in A, c \in {0, 1, 3} : IncAddress(x, k, c) /\ H(<<"IncA", x, k, c>>)
  \/ \E x \in Readers, f, t \in A, c \in {1, 2} : f <= t /\ IncRange(x, f, t, c) /\ H(<<"IncR", x, f, t, c>>)
  \/ \E x \in Readers, f, t \in A, c \in {1, 2} : IncBranch(x, f, t, c) /\ H(<<"IncB", x, f, t, c>>)
  \/ \E x, y \in Readers : Merge(x, y) /\ H(<<"Merge", x, y>>)
  \/ \E x \in Readers, f \in Files : Write(x, f) /\ H(<<"Write", x, f>>)
  \/ \E x \in Readers, f \in Files : AppendFile(x, f) /\ H(<<"Append", x, f>>)
  \/ \E x \in Readers, f \in Files : AppendMissing(x, f) /\ H(<<"Append", x, f>>)
  \/ \E x \in Readers : Clear(x) /\ H(<<"Clear", x>>)
GSpec == GInit /\ [][GNext]_<<vars, hist>>
Emit == Len(hist) = Depth => PrintT("@@" \o ToJson(hist))
=============================================================================
