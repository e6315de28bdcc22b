SPECIFICATION Spec
CONSTANTS Items <- TItems
          Accs = {1, 2, 3}
INVARIANT BatchAlways
CHECK_DEADLOCK FALSE
