SPECIFICATION Spec
CONSTANTS
  N = 3
  Dag = TRUE
  OpMode = "few"
  OptMode = "two"
INVARIANT Inv
CHECK_DEADLOCK FALSE
