SPECIFICATION GSpec
CONSTANTS
  Threads = {1, 2, 3}
  Consumers = {1, 2, 3}
  MostOps = 9

INVARIANTS Emit
CHECK_DEADLOCK FALSE
