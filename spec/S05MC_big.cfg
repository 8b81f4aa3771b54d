SPECIFICATION MCSpec
CONSTANTS
  Page = 4
  Offs = {0, 1, 3, 4, 6, 7, 8, 11}
  Vas = {0, 2, 3, 4, 9, 11, 12, 14, 15, 16}
  Sizes = {1, 2, 3, 4, 6}
  Bases = {0, 8, 20}
INVARIANTS Loadable Back Elsewhere
CHECK_DEADLOCK FALSE
