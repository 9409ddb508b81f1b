SPECIFICATION ModelSpec
INVARIANTS PFraming PStatus PInside PExpiry PHysteresis PBarometer PSteps PStops PZone PKnn PGps PFused POrient PSmooth PSplit
PROPERTIES PLate PAlone
CHECK_DEADLOCK FALSE
