SPECIFICATION Spec
INVARIANTS LeavesOnce Emit
