CONSTANTS NW = 2
          NT = 3
          NSub = 2
          Throwing = {2}
          Spurious = 1
SPECIFICATION Spec
INVARIANTS Counter Once WaitTruth Captured
PROPERTIES Refines Ends
