SPECIFICATION Spec
CHECK_DEADLOCK FALSE
INVARIANTS LifoLaw TokLaw
