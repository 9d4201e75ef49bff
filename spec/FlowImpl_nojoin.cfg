SPECIFICATION ISpec
CONSTANTS Rules = {"excl","life","fatal","burst","sleep","stats"}
 N = 2
 W = 2
 MC = 1
 K = 1
 Ops = 2
 Codes = {"OK", "TERM_IOError"}
 Asl = FALSE
 Bug = "nojoin"
INVARIANT NeverBad

