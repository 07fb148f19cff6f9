CONSTANTS
  NameSeq <- MCNames3
  LeafValues = {"", "a value longer than twenty bytes"}
  NodeValues = {""}
  Depth = 2
SPECIFICATION Spec
INVARIANTS FlatComplete SelfSame Emit
