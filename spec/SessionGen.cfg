SPECIFICATION GenSpec
CONSTANTS Depth = 5
 Flight = 2
INVARIANTS Sensible Emit
CHECK_DEADLOCK FALSE
