CONSTANTS
  NameSeq <- MCNames
  LeafValues = {"", "x", "y"}
  NodeValues = {""}
  Callers = {"m.F", "m.(*T).G"}
  Stacks <- MCStacks
  Msgs = {"boom", "bang"}
  MaxTime = 12
  MaxEvents = 8
  MaxEdits = 3
SPECIFICATION Spec
INVARIANTS Laws Emit
