SPECIFICATION Spec
CONSTANTS N = 4  MaxDies = 0  MaxSeqs = 3  MaxRows = 2
INVARIANTS LinesAnswer
CHECK_DEADLOCK FALSE
