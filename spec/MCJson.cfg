INIT Init
NEXT Next
INVARIANTS ReadsBack Strict OpenIsNone Tell
CHECK_DEADLOCK FALSE
