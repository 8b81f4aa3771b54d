SPECIFICATION MCSpec
CONSTANTS
  Ids = {1, 2, 3, 4}
  Weights = {1, 3}
  Points = {53, 99}
  MostOps = 10

INVARIANTS Whole Mean
PROPERTIES Forward
CHECK_DEADLOCK FALSE
