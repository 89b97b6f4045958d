CONSTANTS Dim = 2
          Coord = {0, 1, 2}
          NMax = 4
          Leafs = {1, 2}
          Ks = {1, 2}
SPECIFICATION Spec
INVARIANTS Correct Depth
