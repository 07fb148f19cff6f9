SPECIFICATION Spec
INVARIANTS OncePerModule RequestsKept Emit
