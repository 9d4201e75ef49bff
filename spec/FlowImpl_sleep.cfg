SPECIFICATION ISpec
CONSTANTS Rules = {"excl","life","fatal","burst","sleep","stats"}
 N = 1
 W = 2
 MC = 1
 K = 5
 Ops = 1
 Codes = {"OK", "NotEnoughSamples", "ProcedureError"}
 Asl = TRUE
 Bug = "none"
INVARIANT NeverBad
PROPERTY Ends
