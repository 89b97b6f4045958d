CONSTANTS CellSet <- CellsB
          NR = 2
          NC = 2
SPECIFICATION Spec
INVARIANTS ReadBack LockStep Cut JsonBack
