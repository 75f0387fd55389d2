SPECIFICATION Spec
CONSTANTS Share = "none"
 MaxCalls = 2
 MaxWrites = 2
INVARIANTS Right Wanted
CHECK_DEADLOCK FALSE
