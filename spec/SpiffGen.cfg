SPECIFICATION Spec
CHECK_DEADLOCK FALSE
INVARIANTS Innermost Balanced Unique
