SPECIFICATION ISpec
CONSTANTS Rules = {"excl","life","fatal","burst","sleep","stats"}
 N = 1
 W = 2
 MC = 1
 K = 5
 Ops = 2
 Codes = {"OK", "NotEnoughSamples"}
 Asl = TRUE
 Bug = "stale"
INVARIANT NeverBad

