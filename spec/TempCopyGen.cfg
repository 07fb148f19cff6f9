SPECIFICATION Spec
INVARIANTS NestedImages Emit
