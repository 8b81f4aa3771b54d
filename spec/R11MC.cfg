SPECIFICATION MCSpec
CONSTANTS
  Runs = {1, 2, 3}
  Most = 4
INVARIANTS Kept Laws
CHECK_DEADLOCK FALSE
