SPECIFICATION Spec
CONSTANTS N = 4 Y <- Ys
INVARIANTS Bracket Found Cover Laws
