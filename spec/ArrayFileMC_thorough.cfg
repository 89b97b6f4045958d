CONSTANTS Dims <- DimsA
          Vals <- ValsB
          Junk = {0, 1, 2, 10, 32, 44, 45, 49, 255}
SPECIFICATION Spec
INVARIANTS Intact CutRefused Damaged BitsKept TextWhole CsvCut TextCut
