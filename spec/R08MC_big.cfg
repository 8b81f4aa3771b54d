SPECIFICATION MCSpec
CONSTANTS
  Ids = {1, 2, 3, 4, 5}
  Weights = {1, 3}
  Points = {7, 53, 99}
  MostOps = 11

INVARIANTS Whole Mean
PROPERTIES Forward
CHECK_DEADLOCK FALSE
