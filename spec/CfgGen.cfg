SPECIFICATION GenSpec
CONSTANTS
  Shapes <- S6
  NF = 3
  Gaps = {0, 1, 3}
  Flags <- F4
  Cnts = {1, 2, 5}
  MostC = 9
  Per = 60
INVARIANTS Emit
CHECK_DEADLOCK FALSE
