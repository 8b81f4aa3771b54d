SPECIFICATION Spec
CONSTANTS Sizes = {1, 2, 4, 5, 8, 13}  MaxItems = 3  Block = 3  MaxReads = 4  Cuts = {0, 1, 4}
INVARIANTS Faithful Fits
CHECK_DEADLOCK FALSE
