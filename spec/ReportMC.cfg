SPECIFICATION Spec
INVARIANTS SameReport TotalsAgree CompleteOrError
PROPERTY Ends
CHECK_DEADLOCK FALSE
