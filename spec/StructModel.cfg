SPECIFICATION Spec
CHECK_DEADLOCK FALSE
INVARIANT Follows PileFits AccountOK RemovalOK Undo
