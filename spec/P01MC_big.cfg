SPECIFICATION MCSpec
CONSTANTS
  Fns = {"f", "g"}
  Offs <- Offs2
  Cnts = {1, 3}
  Depth = 2
  Most = 2
  Both = FALSE
  Kinds = {"src", "call"}
INVARIANTS SamplesInTrees
