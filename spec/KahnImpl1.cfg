SPECIFICATION Spec
CONSTANTS Cap = 1
 N = 5
 Bug = "none"
INVARIANT Prefix
INVARIANT Bounded
