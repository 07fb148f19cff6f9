SPECIFICATION Spec
INVARIANTS ReleasedOnce Reverse NothingAfterFailure ErrIffFailed ReportOnce
PROPERTY Terminates
