SPECIFICATION TSpec
CONSTANT MaxRange = 1048576
POSTCONDITION TraceAccepted
