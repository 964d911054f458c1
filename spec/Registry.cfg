SPECIFICATION Spec
CONSTANTS
 NEv = 2
 MaxLen = 3
 Flaw = "none"
 Gen = TRUE
INVARIANTS LatestWins
CHECK_DEADLOCK FALSE
