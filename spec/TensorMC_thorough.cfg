CONSTANTS Max = 4
SPECIFICATION Spec
INVARIANT Laws
