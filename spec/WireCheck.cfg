CONSTANTS
  MaxDepth = 4
  MaxLen = 5
SPECIFICATION Spec
CONSTRAINT Track
POSTCONDITION Accepted
