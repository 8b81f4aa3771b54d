SPECIFICATION MCSpec
CONSTANTS
  Fns = {"f", "g", "h", "i"}
  Offs <- Offs1
  Cnts = {0, 1, 3, 4}
  Depth = 0
  Most = 6
  Both = TRUE
  Kinds = {"src"}
VIEW View
INVARIANTS OverlapLaws
