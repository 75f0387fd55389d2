SPECIFICATION Spec
CONSTANTS Share = "wild"
 MaxCalls = 2
 MaxWrites = 2
INVARIANTS Right Wanted
CHECK_DEADLOCK FALSE
