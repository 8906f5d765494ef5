from . import fin_checks, fn_checks, mat_checks, ring_checks

CHECKS = {p: ring_checks.run for p in ring_checks.KINDS}
CHECKS.update({p: mat_checks.run for p in mat_checks.KINDS})
CHECKS["C01"] = fn_checks.c01
CHECKS.update(fin_checks.CHECKS)
