SPECIFICATION Spec
CONSTANTS
  Searches <- Large
