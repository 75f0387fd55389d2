SPECIFICATION Spec
CONSTANTS
  Clients = {c1}
  Cases = 1
  Bug = "nodrain"
INVARIANTS Meaning NoProducers Counter Balanced
PROPERTY Finishes
