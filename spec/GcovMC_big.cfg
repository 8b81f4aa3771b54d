SPECIFICATION Spec
CONSTANTS Sizes = {1, 2, 3, 4, 8, 9, 17, 40}  MaxItems = 4  Block = 2  MaxReads = 5  Cuts = {0, 1, 2, 7}
INVARIANTS Faithful Fits
CHECK_DEADLOCK FALSE
