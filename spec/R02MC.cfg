SPECIFICATION MCSpec
CONSTANTS
  Shapes <- S5
  NF = 2
  Gaps = {0}
  Flags <- F2
  Cnts = {1}
  MostC = 2

INVARIANTS Conserved Additive
CHECK_DEADLOCK FALSE
