CONSTANTS
  MaxDepth = 4
  MaxLen = 5
  NObj = 4
  Scalars = {"a", "b", "c", "d", "e", "f", "g", "h"}
  IdClasses = {1, 2, 3, 4, 5, 6}
SPECIFICATION Spec
INVARIANT Emit
