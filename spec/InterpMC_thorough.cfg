SPECIFICATION Spec
CONSTANTS N = 5 Y <- Yt
INVARIANTS Bracket Found Cover Laws
