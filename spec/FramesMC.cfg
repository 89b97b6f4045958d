CONSTANTS Max = 5 Depth = 0
SPECIFICATION Spec
INVARIANTS Acyclic OneParent Refines
