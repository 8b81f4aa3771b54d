INIT BinInit
NEXT BinNext
CONSTANTS
  Most = 3
  Big = 4
CHECK_DEADLOCK FALSE
INVARIANTS OneFunction AllNamed Segmented FoundIsSampled
