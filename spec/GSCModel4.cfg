SPECIFICATION Spec
CONSTANTS
  N = 4
  Dag = TRUE
  OpMode = "default"
  OptMode = "default"
INVARIANT Inv
CHECK_DEADLOCK FALSE
