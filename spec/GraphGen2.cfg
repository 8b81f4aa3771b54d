SPECIFICATION GenSpec
CONSTANTS
  Sizes <- TwoF3
  Eh <- NoEh
  Ws = {1, 2, 5}
  MostE = 7
  Inter = TRUE
  Thr = 0
  Sf = TRUE
  Rhb = TRUE
  Split = TRUE

CHECK_DEADLOCK FALSE
INVARIANTS Emit
