SPECIFICATION MCSpec
CONSTANTS
  MaxRange = 3
  Places = {0, 1, 3}
  Foreign = {2}
  K = 3
  MaxOps = 3
  Stride = 1
CONSTRAINT Bound
INVARIANT Inv
