CONSTANTS
  Steps = 14
  Goroutines = 4
SPECIFICATION Spec
INVARIANTS SelfExplained Emit
