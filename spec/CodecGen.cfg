CONSTANTS
  MaxLen = 8
  MaxFrames = 2048
  Faults = 8
SPECIFICATION Spec
INVARIANTS Valid Laws Emit
