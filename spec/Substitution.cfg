SPECIFICATION Spec
CONSTANTS
 MaxNodes = 2
 MaxArity = 2
 NSyms = 2
 HeadNames = {"f"}
 IntLits = {}
 OddHeads = FALSE
 MaxTargets = 2
 MaxCalls = 1
 Gen = FALSE
INVARIANTS Correct OrderFree Absent WholeWins Complete Frame Minimal
CHECK_DEADLOCK FALSE
