SPECIFICATION Spec
CONSTANTS
 Threads = {1, 2}
 MaxProg = 2
 NKeys = 2
 MaxObj = 6
 Gen = FALSE
 Flaw = "none"
INVARIANTS Agree Intact Whole Shared Enough
CHECK_DEADLOCK FALSE
