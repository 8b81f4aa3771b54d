SPECIFICATION MCSpec
CONSTANTS
  Tids = {5, 6}
  PidSet = {5, 8}
  MaxTime = 4
  MaxEvents = 5
INVARIANTS Attributed Compressed
