SPECIFICATION Spec
CONSTANTS Items <- QItems
          Accs = {1, 2}
INVARIANT BatchAlways
CHECK_DEADLOCK FALSE
