SPECIFICATION MCSpec
CONSTANTS
  FileNames = {"a", "b", "c"}
  Longest = 4
  MostOps = 7
INVARIANTS Prefix Errors Same
PROPERTY Grows
CHECK_DEADLOCK FALSE
