SPECIFICATION Spec
CONSTANTS
 NAddr = 7
 MaxLen = 4
 MaxHeld = 3
 Gen = FALSE
 Flaw = "none"
INVARIANTS Unique Intact Reclaimed
CHECK_DEADLOCK FALSE
