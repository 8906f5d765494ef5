SPECIFICATION Spec
CHECK_DEADLOCK FALSE
INVARIANTS GcdLaw BezoutLaw LinLaw TotientLaw PrimeLaw SqrtLaw
