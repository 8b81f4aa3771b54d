SPECIFICATION MCSpec
CONSTANTS
  Fns = {"f", "g"}
  Offs <- Offs1
  Cnts = {1, 3}
  Depth = 2
  Most = 3
  Both = FALSE
  Kinds = {"src"}
VIEW View
INVARIANTS FlatIsFlat SelectiveKeepsHot HybridKeepsHot LimitWorks TrimConsistent ScaleWhole
