SPECIFICATION Spec
INVARIANTS Emit
