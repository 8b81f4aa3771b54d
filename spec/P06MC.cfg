SPECIFICATION MCSpec
CONSTANTS
  Fns = {"f", "g", "h"}
  Offs <- Offs1
  Cnts = {1, 2}
  Depth = 0
  Most = 4
  Both = FALSE
  Kinds = {"src", "call", "entry"}
VIEW View
INVARIANTS InclSound
