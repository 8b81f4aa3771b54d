SPECIFICATION MCSpec
CONSTANTS
  Readers = {"x", "y"}
  Files = {"f"}
  MaxOps = 5
INVARIANTS Additive FileAdditive MergeCommutes EmptyNeutral
