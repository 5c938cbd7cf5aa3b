SPECIFICATION Spec
CONSTRAINT Small
INVARIANTS Prefix Ended
PROPERTIES Grows
CHECK_DEADLOCK FALSE
