SPECIFICATION MCSpec
CONSTANTS
  Fns = {"f", "g"}
  Offs <- Offs2
  Cnts = {0, 1, 2, 5}
  Depth = 1
  Most = 4
  Both = FALSE
  Kinds = {"src"}
VIEW View
INVARIANTS WorkingSetDef SummaryDef
