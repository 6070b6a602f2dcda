SPECIFICATION Spec
INVARIANTS Prefix Answer Quiet Full6
PROPERTIES Grows Answers
CHECK_DEADLOCK FALSE
