SPECIFICATION Spec
CONSTANTS N = 4
 Values = {1, 2, 3}
INVARIANTS Tree CutRight NoRepeat
PROPERTY Ends
CHECK_DEADLOCK FALSE
