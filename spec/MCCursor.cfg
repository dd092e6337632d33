SPECIFICATION Spec
INVARIANTS InData TakesNext IgnoresWhole GoesOn AddsUp Tell
CHECK_DEADLOCK FALSE
