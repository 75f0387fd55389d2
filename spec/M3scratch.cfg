SPECIFICATION Spec
CONSTANTS Share = "scratch"
 MaxCalls = 2
 MaxWrites = 2
INVARIANTS Right Wanted
CHECK_DEADLOCK FALSE
