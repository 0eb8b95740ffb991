INIT Init
NEXT Next
INVARIANT BuiltinsStay
CHECK_DEADLOCK FALSE
