SPECIFICATION FlowSpec
CONSTANTS
  Shapes <- S4
  NF = 1
  Gaps = {0}
  Ends <- AllEnds
  MostSteps = 6
  MostTimes = 3

INVARIANTS Exact Walkable
CHECK_DEADLOCK FALSE
