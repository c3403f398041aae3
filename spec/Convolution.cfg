SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANT MaxLinks = 40
INVARIANTS Odd Norm MeanSquare NonNegative ClosedForm
