SPECIFICATION MCSpec
CONSTANTS
  Fns = {"f", "g"}
  Offs <- Offs3
  Cnts = {0, 3}
  Depth = 2
  Most = 2
  Both = FALSE
  Kinds = {"src", "call", "entry"}
VIEW View
INVARIANTS GccKeepsCounts GccStable
