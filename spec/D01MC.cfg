SPECIFICATION Spec
CONSTANTS N = 4  MaxDies = 3  MaxSeqs = 0  MaxRows = 0
INVARIANTS MapDisjoint MapAnswers Chains
CHECK_DEADLOCK FALSE
