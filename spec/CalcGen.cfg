SPECIFICATION Spec
CHECK_DEADLOCK FALSE
INVARIANTS Agree Paren
