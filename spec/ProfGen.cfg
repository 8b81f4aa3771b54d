SPECIFICATION GenSpec
CONSTANTS
  Fns = {"f", "g", "h"}
  Offs <- Offs3
  Cnts = {0, 1, 5}
  Depth = 2
  Most = 10
  Both = TRUE
  Kinds = {"src", "call", "entry"}
INVARIANTS Emit
