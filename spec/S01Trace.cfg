SPECIFICATION TSpec
CONSTANTS
  Readers = {"x", "y", "z"}
  Files = {"f", "g", "h"}
POSTCONDITION TraceAccepted
