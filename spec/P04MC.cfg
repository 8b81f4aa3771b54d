SPECIFICATION MCSpec
CONSTANTS
  Fns = {"f", "g"}
  Offs <- Offs2
  Cnts = {1, 3}
  Depth = 1
  Most = 2
  Both = FALSE
  Kinds = {"src", "call", "entry"}
VIEW View
INVARIANTS LlvmKeepsCounts LlvmStable
