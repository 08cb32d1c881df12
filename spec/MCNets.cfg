SPECIFICATION Spec
INVARIANT Inv
PROPERTY Balance
CHECK_DEADLOCK FALSE
