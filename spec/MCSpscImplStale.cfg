SPECIFICATION Spec
CONSTANTS
 Ring = 3
 CommitReloads = FALSE
INVARIANTS NeverBad
CHECK_DEADLOCK FALSE
