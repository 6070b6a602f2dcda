INIT Init
NEXT Next
INVARIANTS WideEnough Legal KnownStays Commutes
CHECK_DEADLOCK FALSE
