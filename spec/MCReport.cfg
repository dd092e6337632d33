INIT Init
NEXT Next
INVARIANTS RowPerLine NamesPlace OtherLines Tell
CHECK_DEADLOCK FALSE
