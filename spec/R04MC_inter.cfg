SPECIFICATION MCSpec
CONSTANTS
  Sizes <- TwoF
  Eh <- NoEh
  Ws = {1, 3}
  MostE = 3
  Inter = TRUE
  Thr = 0
  Sf = TRUE
  Rhb = TRUE
  Split = TRUE
VIEW View
CHECK_DEADLOCK FALSE
INVARIANTS BlocksKept EntriesFirst PathsKept GainsAdd
PROPERTIES Rises
