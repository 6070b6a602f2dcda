INIT Init
NEXT Next
INVARIANTS PassedThrough OfferedOnce DrainIsAll Emit
PROPERTY Stays
CHECK_DEADLOCK FALSE
