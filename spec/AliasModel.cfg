SPECIFICATION Spec
CHECK_DEADLOCK FALSE
INVARIANT OneEach Apart Undone Complete
