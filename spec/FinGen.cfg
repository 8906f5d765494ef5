SPECIFICATION Spec
CHECK_DEADLOCK FALSE
INVARIANTS IrredLaw FactorLaw TotientLaw DivisorLaw OrderLaw GenLaw ZLaw IndexLaw
