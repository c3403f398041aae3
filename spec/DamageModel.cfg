SPECIFICATION Spec
CONSTANTS Size = 14
 MaxSteps = 6
INVARIANT Sufficient MaxIsLargest
PROPERTY Irreversible
CHECK_DEADLOCK FALSE
