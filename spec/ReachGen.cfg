SPECIFICATION Spec
INVARIANTS Consistent Emit
