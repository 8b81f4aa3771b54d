SPECIFICATION MCSpec
CONSTANTS
  MaxRange = 1048576
  Places = {0, 1, 2, 4094, 4095, 4096, 4097, 4098, 1048575, 1048576, 1048577, 1048578}
  Foreign = {0, 1, 4097}
  K = 6
  MaxOps = 7
  Stride = 4096
INVARIANT Emit
