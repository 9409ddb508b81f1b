SPECIFICATION TraceSpec
CONSTRAINT Track
VIEW View
INVARIANT AllProperties
POSTCONDITION TraceAccepted
CHECK_DEADLOCK FALSE
