SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANT COPIES = TRUE
INVARIANT Apart Untouched Equal
