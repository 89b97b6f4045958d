CONSTANTS Max = 3
SPECIFICATION Spec
INVARIANT Laws
