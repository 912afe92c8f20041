INIT Init
NEXT Next
INVARIANT Explain
CHECK_DEADLOCK FALSE
CONSTANT Limit = 100
