CONSTANTS NMax = 5
SPECIFICATION Spec
INVARIANTS Arrives NotEarly EndsOfRange Progress Whole AllValid
