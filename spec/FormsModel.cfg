SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANT N = 3
INVARIANT Units Outwards OrderFree Applicable Grows Legal Decided
