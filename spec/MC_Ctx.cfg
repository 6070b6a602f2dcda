INIT Init
NEXT Next
INVARIANTS Flat Emit
PROPERTY Hidden
CHECK_DEADLOCK FALSE
