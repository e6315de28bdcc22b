SPECIFICATION Spec
CONSTANTS
MaxLen = 2
MaxVars = 3
MaxOff = 2
MaxHor = 1
INVARIANTS Kept AtDates Tight Aligned Lags Whole
CHECK_DEADLOCK FALSE
