SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANT N = 3
INVARIANT RoundTrip Inverse Reach CyclesFit LayersFit
