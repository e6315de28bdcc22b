SPECIFICATION Spec
CONSTANTS Orders <- QOrders
          Values <- QValues
          Fixed = 5
          MaxLen = 7
INVARIANTS LagsRight PolyRight StepByStep Undone SampleRight Continue Prefix Reproduce
CHECK_DEADLOCK FALSE
