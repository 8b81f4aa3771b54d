SPECIFICATION MCSpec
CONSTANTS
  Over = 5
  N = 4
  MaxOps = 5
INVARIANTS Exact Disjoint WithinBlocks SampledEnough
