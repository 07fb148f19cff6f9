SPECIFICATION Spec
INVARIANTS Distinct Reflexive RadiusZero Emit
