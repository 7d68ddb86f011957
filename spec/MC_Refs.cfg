SPECIFICATION Spec
INVARIANTS HeldAlive OwnedAlive NothingLeft CtxAlive Emit
CHECK_DEADLOCK FALSE
