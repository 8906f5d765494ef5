SPECIFICATION Spec
CHECK_DEADLOCK FALSE
VIEW View
INVARIANTS Sorted1 DivLaw MergeLaw
