INIT Init
NEXT Next
INVARIANTS Blame FlowOfLeaf Missing Computed MuxIdem Emit
CHECK_DEADLOCK FALSE
