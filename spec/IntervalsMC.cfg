CONSTANTS N = 3
          MaxParts = 2
SPECIFICATION Spec
INVARIANTS Laws Monotone HoleLaw
