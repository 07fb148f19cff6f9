CONSTANTS
  Namespaces = {"", "a", "ab", "A"}
  Keys = {"k", "k-0", "k-1", "kk", "z/t.Test:1", "a;k", "x/a;y"}
  Vals = {"empty", "one", "L-1", "L", "L+1", "2L", "2L+1", "3L", "3L+2", "9L+1", "marker", "oneB", "L+1B", "3L+2B", "markerB"}
  Depth = 60
  Random = TRUE
  Clears = 12
SPECIFICATION GSpec
INVARIANTS TypeOK Emit
