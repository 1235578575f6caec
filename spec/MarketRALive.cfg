CONSTANTS Lim = 1
 Halts = TRUE
SPECIFICATION Spec
INVARIANT Waiting
PROPERTIES Settles Handled
CHECK_DEADLOCK FALSE
