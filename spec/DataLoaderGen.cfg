CONSTANTS CellSet <- CellsG
          NR = 3
          NC = 2
SPECIFICATION Spec
INVARIANTS Emit
