SPECIFICATION Spec
CONSTANTS NTh = 2 NOps = 2 Versioned = TRUE Recheck = TRUE
INVARIANTS Possible Sound Remembered
CHECK_DEADLOCK FALSE
