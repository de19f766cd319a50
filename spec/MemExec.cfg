SPECIFICATION Spec
INVARIANT NoneBad
CHECK_DEADLOCK FALSE
