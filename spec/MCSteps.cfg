SPECIFICATION Spec
CONSTANTS
  Counts <- MCCounts
  W = {0, 1}
INVARIANTS FixedStay NotMore PartsApart Choice
PROPERTY Shrinks
CHECK_DEADLOCK FALSE
