CONSTANTS NW = 3
          NT = 4
          NSub = 2
          Throwing = {2}
          Spurious = 1
SPECIFICATION Spec
INVARIANTS Counter Once WaitTruth Captured
PROPERTIES Refines Ends
