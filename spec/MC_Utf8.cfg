INIT Init
NEXT Next
INVARIANTS Agree Emit
CHECK_DEADLOCK FALSE
