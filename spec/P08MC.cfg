SPECIFICATION MCSpec
CONSTANTS
  Fns = {"f", "g"}
  Offs <- Offs2
  Cnts = {0, 1, 3}
  Depth = 1
  Most = 3
  Both = FALSE
  Kinds = {"src"}
VIEW View
INVARIANTS WorkingSetDef SummaryDef
