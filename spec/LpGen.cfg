SPECIFICATION Spec
CHECK_DEADLOCK FALSE
INVARIANTS CharLaw CayleyHamilton DiagLaw CompanionLaw ElemLaw IsoLaw VecLaw
