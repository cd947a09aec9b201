SPECIFICATION Spec
CONSTANTS Mode = "sweep" Chunks = 16 Max = 9999 Forward = FALSE
INVARIANTS Closed Nested NoSystem Ordered
CHECK_DEADLOCK FALSE
VIEW View
PROPERTIES Grows
ACTION_CONSTRAINT Edge
