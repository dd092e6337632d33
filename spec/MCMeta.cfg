INIT Init
NEXT Next
INVARIANTS Same IsTree Tell
CHECK_DEADLOCK FALSE
