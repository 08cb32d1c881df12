SPECIFICATION Spec
INVARIANTS Partition Inside EndsInTheGroups
CHECK_DEADLOCK FALSE
