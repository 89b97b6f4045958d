SPECIFICATION Spec
CONSTANTS N = 3 Steps = 7
INVARIANTS Refines Lines Cubics Estimate Extrapolates NotBeyond Newton Reversed Additive Shifted Fubini Gradient
CHECK_DEADLOCK FALSE
