SPECIFICATION Spec
CONSTANTS
  Clients = {c1}
  Cases = 1
  Bug = "phantom"
INVARIANTS Meaning NoProducers Counter Balanced
PROPERTY Finishes
