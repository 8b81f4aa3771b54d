SPECIFICATION MCSpec
CONSTANTS
  Shapes <- S3
  NF = 2
  Gaps = {0}
  Flags <- F4
  Cnts = {1}
  MostC = 0

INVARIANTS LookupFits FallFits
CHECK_DEADLOCK FALSE
