SPECIFICATION Spec
CONSTANTS
 MaxNodes = 2
 MaxArity = 2
 NSyms = 2
 HeadNames = {"f"}
 IntLits = {}
 Gen = FALSE
 OddHeads = TRUE
 ExcludeMax = 2
INVARIANTS TypeOK ListingOK SplitOK GraphOK WorkOK DepthOK
CHECK_DEADLOCK FALSE
