INIT Init
NEXT Next
INVARIANT LimitsHold
CHECK_DEADLOCK FALSE
