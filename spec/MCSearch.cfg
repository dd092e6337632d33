SPECIFICATION Spec
VIEW View
INVARIANTS Stands Keeps TakesNext FindsFirst FoundIsRead SaysWhere Tell
PROPERTY Advances
CHECK_DEADLOCK FALSE
