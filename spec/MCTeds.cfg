SPECIFICATION Spec
CONSTRAINT Small
INVARIANTS Sound Somewhere
PROPERTIES OneAtATime NeverChanges
CHECK_DEADLOCK FALSE
