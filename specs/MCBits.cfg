SPECIFICATION Spec
CONSTANT W = 8
INVARIANT Right
CHECK_DEADLOCK FALSE
