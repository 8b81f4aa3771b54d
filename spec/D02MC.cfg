INIT BinInit
NEXT BinNext
CONSTANTS
  Most = 2
  Big = 4
CHECK_DEADLOCK FALSE
INVARIANTS OneFunction AllNamed Segmented FoundIsSampled
