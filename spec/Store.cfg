CONSTANTS
  Namespaces = {"", "a", "ab"}
  Keys = {"k", "k2"}
  Vals = {"v1", "v2"}
SPECIFICATION Spec
INVARIANTS TypeOK NoAlias ListAgrees
PROPERTY Isolation
