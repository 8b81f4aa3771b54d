INIT RunInit
NEXT Done
CONSTANTS
  Most = 4
  Big = 6
CHECK_DEADLOCK FALSE
INVARIANTS Conserved TogetherOrNot HeadsOk SplitRange FirstTimes MissesKept
