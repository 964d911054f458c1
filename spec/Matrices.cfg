SPECIFICATION Spec
CONSTANTS
 Shapes = {12, 21}
 MaxMats = 3
 MaxNew = 2
 Gen = FALSE
 Flaw = "none"
INVARIANTS Refines Exact InRange
CHECK_DEADLOCK FALSE
