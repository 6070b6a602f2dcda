INIT Init
NEXT Next
INVARIANTS Radixes Ranges Widths Address
CHECK_DEADLOCK FALSE
