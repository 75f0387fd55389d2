SPECIFICATION Spec
INVARIANT Laws
CONSTANT Part = "arith"
