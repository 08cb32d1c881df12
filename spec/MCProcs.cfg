SPECIFICATION Spec
CHECK_DEADLOCK FALSE
INVARIANT DerivativesAgree
INVARIANT NullableAgrees
