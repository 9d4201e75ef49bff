SPECIFICATION Spec
CONSTANTS I = 3
 O = 2
 Gap = 4
 N = 5
 Bug = "early"
INVARIANT Rate
INVARIANT NoDrift
INVARIANT Delay
CHECK_DEADLOCK FALSE
