INIT ListInit
NEXT Done
CONSTANTS
  Most = 4
  Big = 4
CHECK_DEADLOCK FALSE
INVARIANTS ListMonotone ListUpClosed ListFull ListNone ListCovers ListScales
