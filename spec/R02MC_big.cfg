SPECIFICATION MCSpec
CONSTANTS
  Shapes <- S4
  NF = 2
  Gaps = {0}
  Flags <- F2
  Cnts = {1, 3}
  MostC = 2

INVARIANTS Conserved Additive
CHECK_DEADLOCK FALSE
