SPECIFICATION Spec
INVARIANTS ReleasedOnce Reverse NothingAfterFailure ErrIffFailed ReportOnce Emit
