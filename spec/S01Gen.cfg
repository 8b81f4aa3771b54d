SPECIFICATION GSpec
CONSTANTS
  Readers = {"x", "y"}
  Files = {"f", "g"}
  Depth = 14
INVARIANT Emit
