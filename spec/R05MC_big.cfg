SPECIFICATION MCSpec
CONSTANTS
  Sizes <- ThreeF
  Eh <- Eh1
  Ws = {1}
  MostE = 4
  Inter = TRUE
  Thr = 0
  Sf = TRUE
  Rhb = TRUE
  Split = TRUE
VIEW View
CHECK_DEADLOCK FALSE
INVARIANTS SymbolsOnce LinesFit
