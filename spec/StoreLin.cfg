SPECIFICATION TSpec
CONSTRAINT Track
POSTCONDITION Accepted
