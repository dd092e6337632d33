SPECIFICATION Spec
INVARIANTS AsAlone PreparedOnce Collected OneOwner Tell
CHECK_DEADLOCK TRUE
