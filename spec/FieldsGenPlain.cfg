CONSTANTS
  NameSeq <- MCNames
  LeafValues = {"", "x", "a value longer than twenty bytes"}
  NodeValues = {""}
  Depth = 2
SPECIFICATION Spec
INVARIANTS FlatComplete SelfSame Emit
