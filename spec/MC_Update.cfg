SPECIFICATION Spec
CONSTANT Parts = 3
INVARIANTS Atomic Contract NothingAsked Emit
PROPERTY Ends
CHECK_DEADLOCK FALSE
