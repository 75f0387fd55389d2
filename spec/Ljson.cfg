SPECIFICATION Spec
INVARIANT Laws
CONSTANT Part = "json"
