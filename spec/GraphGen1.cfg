SPECIFICATION GenSpec
CONSTANTS
  Sizes <- OneF4
  Eh <- NoEh
  Ws = {1, 2, 5}
  MostE = 6
  Inter = FALSE
  Thr = 1
  Sf = TRUE
  Rhb = TRUE
  Split = TRUE

CHECK_DEADLOCK FALSE
INVARIANTS Emit
