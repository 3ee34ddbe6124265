SPECIFICATION Spec
INVARIANT VectorsHold
CHECK_DEADLOCK FALSE
