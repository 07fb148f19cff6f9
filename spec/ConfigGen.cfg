SPECIFICATION Spec
INVARIANTS Once OnlyValid Emit
