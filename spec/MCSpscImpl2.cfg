SPECIFICATION Spec
CONSTANTS
 Ring = 2
 CommitReloads = TRUE
INVARIANTS TypeOK NeverBad Counters CachesSafe
PROPERTY Fifo
CHECK_DEADLOCK FALSE
