SPECIFICATION Spec
INVARIANT Laws
CONSTANT Part = "logic"
