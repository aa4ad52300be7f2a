CONSTANTS Model = "kv"
 Depth = 3
SPECIFICATION Spec
VIEW View
CONSTRAINT Bound
INVARIANT Laws
INVARIANT Seen
CHECK_DEADLOCK FALSE
