SPECIFICATION Spec
CONSTANTS Top = 2
CONSTRAINT Few
INVARIANTS NormLaw ConjLaw InvLaw RotLaw MatLaw SignLaw UnitTable CurvLaw EulerLaw SlerpLaw TensLaw
CHECK_DEADLOCK FALSE
