SPECIFICATION Spec
CONSTANTS
 Ring = 4
 CommitReloads = TRUE
INVARIANTS TypeOK NeverBad Counters CachesSafe
PROPERTY Fifo
CHECK_DEADLOCK FALSE
