SPECIFICATION Spec
CONSTANTS
  N = 3
  Dag = FALSE
  OpMode = "default"
  OptMode = "all"
INVARIANT Inv
CHECK_DEADLOCK FALSE
