SPECIFICATION Spec
INVARIANT Good
CONSTRAINT Bound
POSTCONDITION Post
CHECK_DEADLOCK FALSE
