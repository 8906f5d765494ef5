SPECIFICATION Spec
CHECK_DEADLOCK FALSE
INVARIANTS RingLaws Canonical UnitLaws PowLaws DivisionLaws GcdLaws OrderLaws CalculusLaws RootLaws TextLaws SuccLaws
