SPECIFICATION Spec
CHECK_DEADLOCK FALSE
INVARIANT Same
PROPERTY Frame
