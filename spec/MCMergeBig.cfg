SPECIFICATION Spec
CONSTANTS
  Models = {1, 2, 3, 4, 5}
  K = 2
  Values = {0, 1, 2}
  Items = {1, 2}
INVARIANTS Faithful Whole
CHECK_DEADLOCK FALSE
