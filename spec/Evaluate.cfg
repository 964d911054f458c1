SPECIFICATION Spec
CONSTANTS
 MaxNodes = 2
 MaxArity = 2
 NSyms = 1
 HeadNames = {"f", "g"}
 IntLits = {2}
 Gen = TRUE
 OddHeads = FALSE
 Flaw = "none"
INVARIANTS ValueOK FailOK OnceOK
CHECK_DEADLOCK FALSE
