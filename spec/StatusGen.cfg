SPECIFICATION GSpec
CONSTANTS
  Ids = {1, 2, 3, 4, 5, 6}
  Weights = {1, 3, 10}
  Points = {7, 29, 53, 58, 99, 100}
  MostOps = 18

INVARIANTS Emit
CHECK_DEADLOCK FALSE
