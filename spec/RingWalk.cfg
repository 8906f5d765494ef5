SPECIFICATION WSpec
CHECK_DEADLOCK FALSE
INVARIANTS RegsWF
