SPECIFICATION Spec
CHECK_DEADLOCK FALSE
INVARIANTS Bounded Untouched Qualified FirstOne Above Below Shrinking Found Damped
PROPERTY Terminates
