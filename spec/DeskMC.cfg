CONSTANTS Mode = "core"
 MaxOffers = 2
INIT Init
NEXT Next
VIEW View
CONSTRAINT Bounded
INVARIANTS InvMoney Emit
PROPERTY StepOk
CHECK_DEADLOCK FALSE
