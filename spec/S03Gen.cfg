SPECIFICATION MCSpec
CONSTANTS
  Over = 1024
  N = 12
  MaxOps = 15
INVARIANTS Emit
