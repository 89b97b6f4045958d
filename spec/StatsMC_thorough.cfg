SPECIFICATION Spec
CONSTANTS MaxN = 5 Top = 2
INVARIANTS VarLaw VarZero CovLaw Order RankLaw KenLaw Symmetric WLaw ModeLaw
CHECK_DEADLOCK FALSE
