SPECIFICATION Fair
CONSTANTS
  Shape <- Shape211
  Threads = {1, 2}
  K = 2
  Values <- TwoValues
INVARIANTS OneThreadEach InOrder GroupRight Joint
PROPERTIES NoStartAfterCancel Ends
