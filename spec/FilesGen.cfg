SPECIFICATION GSpec
CONSTANTS
  FileNames = {"a", "b", "c"}
  Longest = 4
  MostOps = 14
INVARIANTS Emit
CHECK_DEADLOCK FALSE
