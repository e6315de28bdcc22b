SPECIFICATION Spec
CONSTANTS N = 5
 Values = {1, 2}
INVARIANTS Tree CutRight NoRepeat
PROPERTY Ends
CHECK_DEADLOCK FALSE
