SPECIFICATION Spec
CONSTANTS
 Ring = 3
 CommitReloads = TRUE
INVARIANTS TypeOK NeverBad Counters CachesSafe
PROPERTY Fifo
CHECK_DEADLOCK FALSE
