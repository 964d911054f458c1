SPECIFICATION Spec
CONSTANTS
 MaxLen = 3
 Gen = FALSE
 Flaw = "none"
INVARIANTS OnlyAsked Works
CHECK_DEADLOCK FALSE
