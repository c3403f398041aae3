SPECIFICATION Spec
CHECK_DEADLOCK FALSE
INVARIANTS Correct EachOnce Inside
