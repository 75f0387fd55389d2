SPECIFICATION Spec
INVARIANT Laws
CONSTANT Part = "compare"
