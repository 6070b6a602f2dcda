INIT Init
NEXT Next
INVARIANTS Nesting Scoping
CHECK_DEADLOCK FALSE
