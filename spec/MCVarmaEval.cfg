SPECIFICATION Spec
CONSTANTS MaxN = 6
          MaxH = 4
          MaxInvalid = 1
INVARIANTS Causal Once All Outcome Number
PROPERTIES Ends
CHECK_DEADLOCK FALSE
