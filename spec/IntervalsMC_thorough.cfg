CONSTANTS N = 4
          MaxParts = 2
SPECIFICATION Spec
INVARIANTS Laws Monotone HoleLaw
