SPECIFICATION Spec
PROPERTY AllReturn
CHECK_DEADLOCK FALSE
