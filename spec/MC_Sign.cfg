SPECIFICATION Spec
INVARIANTS NoForgery OneIsEnough TamperedFails Emit
CHECK_DEADLOCK FALSE
