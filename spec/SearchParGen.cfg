SPECIFICATION Spec
CONSTANTS
  Searches <- Small
