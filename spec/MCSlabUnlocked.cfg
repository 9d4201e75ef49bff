SPECIFICATION Spec
CONSTANTS Cap = 3
 Rel = {1, 2}
 Locked = FALSE
 MaxTakes = 6
INVARIANT OneHolder
INVARIANT Conserved
CHECK_DEADLOCK FALSE
