SPECIFICATION MCSpec
CONSTANTS
  Longest = 2
  LongestOld = 1
INVARIANTS AtEnd NoHalf
PROPERTIES Forward Ends
CHECK_DEADLOCK FALSE
