SPECIFICATION Fair
CONSTANTS
  Shape <- Shape32
  Threads = {1, 2}
  K = 2
  Values <- ThreeValues
INVARIANTS OneThreadEach InOrder GroupRight Joint
PROPERTIES NoStartAfterCancel Ends
