SPECIFICATION Spec
CONSTANTS I = 3
 O = 2
 Gap = 0
 N = 5
 Bug = "drift"
INVARIANT Rate
INVARIANT NoDrift
INVARIANT Delay
CHECK_DEADLOCK FALSE
