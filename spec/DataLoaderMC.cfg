CONSTANTS CellSet <- CellsA
          NR = 2
          NC = 2
SPECIFICATION Spec
INVARIANTS ReadBack LockStep Cut JsonBack
