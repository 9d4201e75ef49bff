SPECIFICATION Spec
CONSTANTS Cap = 2
 N = 4
 Bug = "none"
INVARIANT Prefix
INVARIANT Bounded
