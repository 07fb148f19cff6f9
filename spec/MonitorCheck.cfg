SPECIFICATION Spec
CONSTRAINT Track
POSTCONDITION Accepted
