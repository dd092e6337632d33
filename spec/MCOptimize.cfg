INIT Init
NEXT Next
INVARIANTS ChangesNothing TwiceChangesNothing FlatUndoes
CHECK_DEADLOCK FALSE
