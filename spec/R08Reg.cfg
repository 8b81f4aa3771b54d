SPECIFICATION RSpec
CONSTANTS
  Threads = {t1, t2, t3}
  Consumers = {c1, c2}
  MostOps = 5

INVARIANTS OneAtATime Batches Known
PROPERTIES AllEnd
CHECK_DEADLOCK FALSE
