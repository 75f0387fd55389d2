SPECIFICATION Spec
INVARIANT Laws
CONSTANT Part = "regex"
