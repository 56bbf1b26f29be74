SPECIFICATION Spec
CONSTANTS
  N = 3
  Dag = TRUE
  OpMode = "default"
  OptMode = "default"
INVARIANT Inv
CHECK_DEADLOCK FALSE
