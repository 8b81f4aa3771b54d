INIT ListInit
NEXT Done
CONSTANTS
  Most = 6
  Big = 5
CHECK_DEADLOCK FALSE
INVARIANTS ListMonotone ListUpClosed ListFull ListNone ListCovers ListScales
