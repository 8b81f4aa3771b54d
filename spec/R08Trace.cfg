SPECIFICATION TSpec
CONSTRAINT Note
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE
