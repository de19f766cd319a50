SPECIFICATION Spec
INVARIANT NoneViolated
VIEW View
CHECK_DEADLOCK FALSE
ALIAS Short
