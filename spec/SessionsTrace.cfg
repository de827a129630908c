SPECIFICATION Spec
INVARIANT Prefixes
CHECK_DEADLOCK FALSE
