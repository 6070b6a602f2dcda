INIT Init
NEXT Next
INVARIANTS InOrder Interface Masks Addresses Emit
CHECK_DEADLOCK FALSE
