CONSTANTS
  NameSeq <- MCNames
  LeafValues = {"", "x", "a value longer than twenty bytes"}
  NodeValues = {"", "w"}
  Depth = 2
SPECIFICATION Spec
INVARIANTS FlatComplete SelfSame Emit
