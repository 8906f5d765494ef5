SPECIFICATION Spec
CHECK_DEADLOCK FALSE
INVARIANTS RoundTrip Blank Consistent
