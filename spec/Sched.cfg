SPECIFICATION Spec
CHECK_DEADLOCK FALSE
INVARIANT Agree Ordered Complete Defaults Waits Ended Counted Fresh Refuses Timely Together Handed
