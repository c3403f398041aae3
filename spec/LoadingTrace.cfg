SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANT Judge <- JudgeLoading
