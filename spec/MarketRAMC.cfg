CONSTANTS Mode = "core"
 MaxOffers = 2
INIT Init
NEXT Next
VIEW View
CONSTRAINT Bounded
INVARIANTS InvEscrow InvCustody InvKeys InvClock InvBids InvParams InvFree Emit
PROPERTY StepOk
CHECK_DEADLOCK FALSE
