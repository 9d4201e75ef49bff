SPECIFICATION Spec
CONSTANTS Cap = 3
 N = 6
 Bug = "none"
INVARIANT Prefix
INVARIANT Bounded
