SPECIFICATION MCSpec
CONSTANTS
  Over = 5
  N = 5
  MaxOps = 6
INVARIANTS Exact Disjoint WithinBlocks SampledEnough
