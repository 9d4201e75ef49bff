SPECIFICATION Spec
CONSTANTS I = 3
 O = 2
 Gap = 7
 N = 5
 Bug = "none"
INVARIANT Rate
INVARIANT NoDrift
INVARIANT Delay
CHECK_DEADLOCK FALSE
