SPECIFICATION TSpec
CONSTANT Over = 1024
POSTCONDITION TraceAccepted
