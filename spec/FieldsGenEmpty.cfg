CONSTANTS
  NameSeq <- MCNamesEmpty
  LeafValues = {"", "x"}
  NodeValues = {""}
  Depth = 3
SPECIFICATION Spec
INVARIANTS NestedComplete SelfSame EmitNested
