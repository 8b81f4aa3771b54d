SPECIFICATION MCSpec
CONSTANTS
  Fns = {"f", "g", "h"}
  Offs <- Offs1
  Cnts = {1, 3}
  Depth = 1
  Most = 3
  Both = FALSE
  Kinds = {"src", "entry"}
VIEW View
INVARIANTS ElisionKeepsAll ElisionAnyOrder
