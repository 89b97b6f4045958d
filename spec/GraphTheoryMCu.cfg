CONSTANTS NV = 4
          Ws = {1, 2}
          Dir = FALSE
SPECIFICATION Spec
INVARIANTS Orders Paths Forests
