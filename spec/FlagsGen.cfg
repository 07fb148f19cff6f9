SPECIFICATION Spec
INVARIANTS LastWins Emit
