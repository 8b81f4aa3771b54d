SPECIFICATION MCSpec
CONSTANTS
  Sizes <- OneF4
  Eh <- NoEh
  Ws = {1, 2}
  MostE = 5
  Inter = FALSE
  Thr = 0
  Sf = TRUE
  Rhb = TRUE
  Split = TRUE
VIEW View
CHECK_DEADLOCK FALSE
INVARIANTS HotMonotone
