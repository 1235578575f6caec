CONSTANTS Mode = "core"
 MaxOffers = 2
INIT Init
NEXT Next
VIEW View
CONSTRAINT Bounded
INVARIANTS InvEscrow InvCustody InvUncrossed InvConfig InvPrices InvCancel Emit
PROPERTY StepOk
CHECK_DEADLOCK FALSE
