SPECIFICATION Spec
INVARIANTS Symmetric Identity Bounded Overlap Triangle LevTriangle
CHECK_DEADLOCK FALSE
