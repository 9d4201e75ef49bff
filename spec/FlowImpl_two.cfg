SPECIFICATION ISpec
CONSTANTS Rules = {"excl","life","fatal","burst","sleep","stats"}
 N = 2
 W = 2
 MC = 2
 K = 1
 Ops = 2
 Codes = {"OK", "BadData", "TERM_IOError"}
 Asl = FALSE
 Bug = "none"
INVARIANT NeverBad
PROPERTY Ends
