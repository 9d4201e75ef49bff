SPECIFICATION Spec
CONSTANTS I = 3
 O = 2
 Gap = 12
 N = 5
 Bug = "burst"
INVARIANT Rate
INVARIANT NoDrift
INVARIANT Delay
CHECK_DEADLOCK FALSE
