SPECIFICATION Spec
CONSTANTS
 Blk = {1, 2, 3}
 Chan = {0, 1}
 MaxRuns = 2
 Variant = "twice"
INVARIANTS Once All Real
CHECK_DEADLOCK FALSE
