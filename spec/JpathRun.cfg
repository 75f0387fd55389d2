SPECIFICATION Spec
CONSTANTS
  MaxSrc = 2
  MaxItems = 2
  Size = 2
  Buf = 3
  OLD = FALSE
INVARIANTS EndsAsAllowed Strict
PROPERTY Terminates
