SPECIFICATION SpecE
CHECK_DEADLOCK FALSE
INVARIANTS ProductLaw DegreeLaw PalinLaw
