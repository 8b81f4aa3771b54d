SPECIFICATION Spec
CONSTANTS N = 5  MaxDies = 0  MaxSeqs = 3  MaxRows = 3
INVARIANTS LinesAnswer
CHECK_DEADLOCK FALSE
