INIT Init
NEXT Next
INVARIANTS Equivalence Transitive Flipping Merging Associative
CHECK_DEADLOCK FALSE
