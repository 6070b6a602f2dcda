SPECIFICATION Spec
INVARIANTS RightOrder Prefixes Once Emit
PROPERTY Terminates
CHECK_DEADLOCK FALSE
