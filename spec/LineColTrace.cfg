SPECIFICATION Spec
INVARIANT CacheSound
CHECK_DEADLOCK FALSE
