SPECIFICATION MSpec
CONSTANTS L = 2
 Objs = {1, 2}
 Leak = TRUE
 MaxFiles = 4
INVARIANTS VInv NoLeak Mapped
CHECK_DEADLOCK FALSE
