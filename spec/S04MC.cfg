SPECIFICATION MCSpec
CONSTANTS
  Tids = {5, 6}
  PidSet = {5, 8}
  MaxTime = 4
  MaxEvents = 4
INVARIANTS Attributed Compressed
