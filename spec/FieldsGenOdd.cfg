CONSTANTS
  NameSeq <- MCNamesOdd
  LeafValues = {"x"}
  NodeValues = {""}
  Depth = 2
SPECIFICATION Spec
INVARIANTS Emit
