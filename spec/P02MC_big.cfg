SPECIFICATION MCSpec
CONSTANTS
  Fns = {"f", "g"}
  Offs <- Offs2
  Cnts = {1, 2}
  Depth = 1
  Most = 3
  Both = TRUE
  Kinds = {"src", "call", "entry"}
VIEW View
INVARIANTS MergeCommutes MergeGroups MergeKeepsTotals MergePointwise
