INIT Init
NEXT Next
INVARIANTS TextRight TextNone NumberRight NumberStops Agrees Tell
CHECK_DEADLOCK FALSE
