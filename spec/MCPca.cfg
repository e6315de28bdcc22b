SPECIFICATION Spec
CONSTANTS
  Top = 4
  Len0 = 4
INVARIANTS InRange Possible ExactCount AtMost ExplainsEnough NoneNeedless
PROPERTY NeverFewer
CHECK_DEADLOCK FALSE
