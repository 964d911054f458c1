SPECIFICATION Spec
CONSTANTS
 N = 60
 Flaw = "none"
INVARIANTS SinesOK SumOK MulOK MulInv PowOK TrigOK ExpLnOK PowNeg Defined
CHECK_DEADLOCK FALSE
