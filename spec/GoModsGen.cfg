SPECIFICATION Spec
INVARIANTS NoFalseUpdates NothingFromNothing OncePerMember Emit
