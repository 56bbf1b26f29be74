SPECIFICATION Spec
CHECK_DEADLOCK FALSE
INVARIANT Answers Latest AddUp
