SPECIFICATION ISpec
CONSTANTS Rules = {"excl","life","fatal","burst","sleep","stats"}
 N = 3
 W = 2
 MC = 2
 K = 3
 Ops = 1
 Codes = {"OK", "NotEnoughSpace"}
 Asl = FALSE
 Bug = "overlap"
INVARIANT NeverBad

