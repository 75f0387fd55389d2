SPECIFICATION Spec
CONSTANTS Share = "slice"
 MaxCalls = 2
 MaxWrites = 2
INVARIANTS Right Wanted
CHECK_DEADLOCK FALSE
