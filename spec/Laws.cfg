SPECIFICATION Spec
CONSTANTS
 MaxNodes = 2
 MaxArity = 2
 NSyms = 2
 HeadNames = {"Add", "Mul", "pow", "sin", "cos", "f"}
 IntLits = {0, 1, 901, 2}
 Gen = FALSE
 OddHeads = FALSE
 MaxDiff = 2
 Flaw = "none"
INVARIANTS DiffLaw ZeroTimes Independent PrintLaw InjectLaw CodeLaw ExpandLaw IdentityLaw PartsLaw CountLaw
CHECK_DEADLOCK FALSE
