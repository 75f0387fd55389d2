SPECIFICATION Spec
CONSTANTS
  Clients = {c1, c2}
  Cases = 2
  Bug = "none"
INVARIANTS Meaning NoProducers Counter Balanced
PROPERTY Finishes
