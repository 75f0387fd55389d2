SPECIFICATION Spec
INVARIANT Laws
CONSTANT Part = "syntax"
