SPECIFICATION Spec
CONSTANTS
  Clients = {c1, c2}
  Cases = 3
  Bug = "shared"
INVARIANTS Meaning NoProducers Counter Balanced
PROPERTY Finishes
