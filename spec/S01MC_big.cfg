SPECIFICATION MCSpec
CONSTANTS
  Readers = {"x", "y"}
  Files = {"f"}
  MaxOps = 6
INVARIANTS Additive FileAdditive MergeCommutes EmptyNeutral
