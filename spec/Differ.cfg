SPECIFICATION Spec
CONSTANTS
 NDf = 2
 MaxLen = 2
 Flaw = "none"
 Gen = FALSE
INVARIANTS MeansOK
CHECK_DEADLOCK FALSE
