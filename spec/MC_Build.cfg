INIT Init
NEXT Next
INVARIANTS Overwrites Emit
PROPERTIES Frame Grows
CHECK_DEADLOCK FALSE
