CONSTANTS Max = 6 Depth = 40
SPECIFICATION Spec
INVARIANTS Acyclic OneParent Refines Emit
CONSTRAINT Bounded
