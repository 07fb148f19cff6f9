CONSTANTS
  Namespaces = {"", "a"}
  Keys = {"k"}
  Vals = {"empty", "one", "L", "L+1", "2L", "2L+1", "3L+2", "marker"}
  Depth = 3
  Random = FALSE
  Clears = 12
SPECIFICATION GSpec
INVARIANTS TypeOK Emit
