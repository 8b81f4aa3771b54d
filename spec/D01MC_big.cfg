SPECIFICATION Spec
CONSTANTS N = 5  MaxDies = 4  MaxSeqs = 0  MaxRows = 0
INVARIANTS MapDisjoint MapAnswers Chains
CHECK_DEADLOCK FALSE
