SPECIFICATION Spec
CONSTANTS Orders <- TOrders
          Values <- TValues
          Fixed = 7
          MaxLen = 10
INVARIANTS LagsRight PolyRight StepByStep Undone SampleRight Continue Prefix Reproduce
CHECK_DEADLOCK FALSE
