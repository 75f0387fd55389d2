SPECIFICATION Spec
INVARIANT Laws
CONSTANT Part = "slice"
