INIT Init
NEXT Next
INVARIANTS Nesting Scoping Ended
CHECK_DEADLOCK FALSE
