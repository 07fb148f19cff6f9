CONSTANTS
  Keys = {"k", "k2"}
  Vals = {"whole", "two", "three"}
  PartsOf <- MCPartsOf
  Clients = {"c1", "c2"}
  LoadSteps = 1
SPECIFICATION CSpec
INVARIANTS NoTornResult NoOrphans
