SPECIFICATION ISpec
CONSTANTS Rules = {"excl","life","fatal","burst","sleep","stats"}
 N = 1
 W = 2
 MC = 2
 K = 6
 Ops = 2
 Codes = {"OK", "NotEnoughSamples", "ProcedureError"}
 Asl = TRUE
 Bug = "none"
INVARIANT NeverBad
PROPERTY Ends
