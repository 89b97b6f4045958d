CONSTANTS MaxV = 5
          Ws = {1, 2, 3, 10}
          MaxLen = 5
          Depth = 30
SPECIFICATION Spec
INVARIANTS Refines Mirror Emit
