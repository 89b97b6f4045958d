CONSTANTS MaxV = 3
          Ws = {1, 3}
          MaxLen = 3
          Depth = 0
SPECIFICATION Spec
VIEW View
INVARIANTS Refines Mirror NoLoops Simple
