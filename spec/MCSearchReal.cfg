SPECIFICATION Spec
INVARIANTS Monotone Void Effective
CHECK_DEADLOCK FALSE
