SPECIFICATION GSpec
INVARIANTS Valid Emit
CHECK_DEADLOCK FALSE
