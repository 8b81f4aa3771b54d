SPECIFICATION GenSpec
CONSTANTS
  Shapes <- S4
  NF = 2
  Gaps = {0, 3}
  Ends <- AllEnds
  MostSteps = 14
  MostTimes = 5
  Per = 40

INVARIANTS Emit
CHECK_DEADLOCK FALSE
