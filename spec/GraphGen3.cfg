SPECIFICATION GenSpec
CONSTANTS
  Sizes <- ThreeF
  Eh <- Eh1
  Ws = {1, 4}
  MostE = 9
  Inter = FALSE
  Thr = 0
  Sf = FALSE
  Rhb = TRUE
  Split = TRUE

CHECK_DEADLOCK FALSE
INVARIANTS Emit
