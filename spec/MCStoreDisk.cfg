CONSTANTS
  Keys = {"k", "k2", "k3"}
  Vals = {"empty", "whole", "two", "three"}
  PartsOf <- MCPartsOf
SPECIFICATION Spec
INVARIANTS NeverTorn NoOrphans
PROPERTY RefinesMap
