SPECIFICATION MCSpec
CONSTANTS
  FileNames = {"a", "b"}
  Longest = 3
  MostOps = 6
INVARIANTS Prefix Errors Same
PROPERTY Grows
CHECK_DEADLOCK FALSE
