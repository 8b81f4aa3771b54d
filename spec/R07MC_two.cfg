SPECIFICATION FlowSpec
CONSTANTS
  Shapes <- S2
  NF = 2
  Gaps = {0, 2}
  Ends <- AllEnds
  MostSteps = 2
  MostTimes = 2

INVARIANTS Exact Walkable
CHECK_DEADLOCK FALSE
