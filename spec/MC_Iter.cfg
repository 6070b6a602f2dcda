INIT Init
NEXT Next
INVARIANTS Table Order Instances Emit
PROPERTIES OneByOne Final
CHECK_DEADLOCK FALSE
