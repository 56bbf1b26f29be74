SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANT Names = {"a", "b", "execution_id"}
INVARIANT Accepted Possible Once Ordered Override Arrive Withheld Blind
