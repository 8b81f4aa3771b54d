SPECIFICATION MCSpec
CONSTANTS
  Sizes <- OneF4
  Eh <- NoEh
  Ws = {1, 3}
  MostE = 5
  Inter = FALSE
  Thr = 1
  Sf = TRUE
  Rhb = TRUE
  Split = TRUE
VIEW View
CHECK_DEADLOCK FALSE
INVARIANTS BlocksKept EntriesFirst PathsKept GainsAdd
PROPERTIES Rises
