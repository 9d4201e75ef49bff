SPECIFICATION Spec
CONSTANTS Cap = 1
 N = 4
 Bug = "nospace"
INVARIANT Prefix
INVARIANT Bounded
