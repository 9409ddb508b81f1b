SPECIFICATION TraceSpec
CONSTRAINT Track
INVARIANT AllProperties
POSTCONDITION TraceAccepted
CHECK_DEADLOCK FALSE
