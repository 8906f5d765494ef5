SPECIFICATION Spec
INVARIANTS CountLaw PermLaw WidthLaw MulLaw AddLaw
CHECK_DEADLOCK FALSE
