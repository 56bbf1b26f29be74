SPECIFICATION Spec
CONSTANTS
  N = 3
  Dag = TRUE
  OpMode = "some"
  OptMode = "all"
INVARIANT Inv
CHECK_DEADLOCK FALSE
