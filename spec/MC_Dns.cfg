SPECIFICATION Spec
INVARIANTS Calendar Readable
CHECK_DEADLOCK FALSE
