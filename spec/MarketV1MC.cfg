CONSTANTS Mode = "core"
 MaxOffers = 2
INIT Init
NEXT Next
VIEW View
CONSTRAINT Bounded
INVARIANTS InvEscrow InvKeys InvPrices InvParams InvCancel InvDelist Emit
PROPERTY StepOk
CHECK_DEADLOCK FALSE
