SPECIFICATION MCSpec
CONSTANTS
  Sizes <- TwoF
  Eh <- NoEh
  Ws = {1, 3}
  MostE = 3
  Inter = FALSE
  Thr = 0
  Sf = FALSE
  Rhb = TRUE
  Split = TRUE
VIEW View
CHECK_DEADLOCK FALSE
INVARIANTS LayoutFits
