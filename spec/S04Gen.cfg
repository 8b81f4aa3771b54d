SPECIFICATION GSpec
CONSTANTS
  Tids = {5, 6, 7}
  PidSet = {5, 8, 9}
  MaxTime = 12
  MaxEvents = 9
INVARIANTS Emit
