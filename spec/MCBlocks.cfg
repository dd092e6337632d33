INIT Init
NEXT Next
INVARIANTS SameTree_ RejectedThere Tell
CHECK_DEADLOCK FALSE
