SPECIFICATION Spec
CONSTANTS Mode = "small" Chunks = 16 Max = 2 Forward = FALSE
INVARIANTS Closed Nested NoSystem Ordered
CHECK_DEADLOCK FALSE
VIEW View
PROPERTIES Grows
ACTION_CONSTRAINT Edge
