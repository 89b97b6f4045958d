SPECIFICATION Spec
CONSTANTS N = 1 Steps = 6
INVARIANTS Refines Lines Cubics Estimate Extrapolates NotBeyond Newton Reversed Additive Shifted Fubini Gradient
CHECK_DEADLOCK FALSE
