SPECIFICATION FlowSpec
CONSTANTS
  Shapes <- S3
  NF = 1
  Gaps = {0}
  Ends <- AllEnds
  MostSteps = 3
  MostTimes = 2

INVARIANTS Exact Walkable
CHECK_DEADLOCK FALSE
