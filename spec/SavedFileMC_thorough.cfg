CONSTANTS NMax = 12
SPECIFICATION Spec
INVARIANTS Arrives NotEarly EndsOfRange Progress Whole AllValid
