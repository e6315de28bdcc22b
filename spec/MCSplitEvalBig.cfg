SPECIFICATION Spec
CONSTANTS MaxN = 5
          MaxIter = 3
          MaxInvalid = 1
INVARIANTS Honest Once Number Balance Right Parts
PROPERTIES Ends
CHECK_DEADLOCK FALSE
