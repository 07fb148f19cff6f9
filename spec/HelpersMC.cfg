SPECIFICATION Spec
CONSTANTS Acts = {a1, a2, a3}
Limit = 2
Ks = {k1, k2}
INVARIANT WithinLimit
INVARIANT JoinAfterAll
PROPERTY NoLostWaiter
PROPERTY JoinReturns
CHECK_DEADLOCK FALSE
