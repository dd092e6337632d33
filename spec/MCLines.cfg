INIT Init
NEXT Next
INVARIANTS Same Flat_ Tell
CHECK_DEADLOCK FALSE
