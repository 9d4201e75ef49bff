SPECIFICATION ISpec
CONSTANTS Rules = {"excl","life","fatal","burst","sleep","stats"}
 N = 3
 W = 2
 MC = 2
 K = 1
 Ops = 1
 Codes = {"OK", "NotEnoughSpace", "TERM_EOFReached"}
 Asl = FALSE
 Bug = "none"
INVARIANT NeverBad
PROPERTY Ends
