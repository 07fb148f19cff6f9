CONSTANTS
  NameSeq <- MCNames
  LeafValues = {"", "x", "a value longer than twenty bytes", "[1 2 3]"}
  NodeValues = {"", "w"}
  Callers = {"m/p.F", "m/p.(*T).M", "m/p.F.func1", ""}
  Stacks <- MCStacks
  Msgs = {"", "boom", "runtime error: index out of range [5] with length 3"}
  MaxTime = 2147483647
  Steps = 14
SPECIFICATION Spec
INVARIANTS Emit
