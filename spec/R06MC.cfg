SPECIFICATION MCSpec
CONSTANTS
  Sizes <- OneF
  Eh <- NoEh
  Ws = {1, 2}
  MostE = 4
  Inter = FALSE
  Thr = 0
  Sf = TRUE
  Rhb = TRUE
  Split = TRUE
VIEW View
CHECK_DEADLOCK FALSE
INVARIANTS HotMonotone
