INIT Init
NEXT Next
INVARIANT Understood
CHECK_DEADLOCK FALSE
