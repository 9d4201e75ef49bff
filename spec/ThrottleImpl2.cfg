SPECIFICATION Spec
CONSTANTS I = 3
 O = 5
 Gap = 4
 N = 5
 Bug = "none"
INVARIANT Rate
INVARIANT NoDrift
INVARIANT Delay
CHECK_DEADLOCK FALSE
