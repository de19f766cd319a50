SPECIFICATION Spec
INVARIANT Possible
INVARIANT Sound
VIEW View
ALIAS Short
CHECK_DEADLOCK FALSE
