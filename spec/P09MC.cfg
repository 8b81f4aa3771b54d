SPECIFICATION MCSpec
CONSTANTS
  Fns = {"f", "g", "h"}
  Offs <- Offs1
  Cnts = {0, 1, 3}
  Depth = 0
  Most = 5
  Both = TRUE
  Kinds = {"src"}
VIEW View
INVARIANTS OverlapLaws
