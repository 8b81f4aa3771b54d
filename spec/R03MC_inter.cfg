SPECIFICATION MCSpec
CONSTANTS
  Sizes <- TwoF
  Eh <- Eh1
  Ws = {2}
  MostE = 4
  Inter = TRUE
  Thr = 9
  Sf = TRUE
  Rhb = FALSE
  Split = TRUE
VIEW View
CHECK_DEADLOCK FALSE
INVARIANTS LayoutFits
