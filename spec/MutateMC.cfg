SPECIFICATION MCSpec
INVARIANTS OnlyInScope AllOfScope OncePerPlace JudgedAlone JudgedBySelected NoTrace Recoverable
PROPERTY AlwaysEnds
CHECK_DEADLOCK FALSE
