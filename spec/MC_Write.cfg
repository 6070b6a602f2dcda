INIT Init
NEXT Next
INVARIANTS ReadsBack Emit
CHECK_DEADLOCK FALSE
