SPECIFICATION Spec
CONSTANTS
 MaxLen = 3
 Gen = FALSE
 Flaw = "none"
INVARIANTS Refused Same
CHECK_DEADLOCK FALSE
