SPECIFICATION Spec
CONSTANTS MaxN = 9
          MaxH = 6
          MaxInvalid = 3
INVARIANTS Causal Once All Outcome Number
PROPERTIES Ends
CHECK_DEADLOCK FALSE
