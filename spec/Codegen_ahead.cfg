SPECIFICATION Spec
CONSTANTS Mode = "ahead" Chunks = 16 Max = 1 Forward = TRUE
INVARIANTS Closed Nested NoSystem Ordered
CHECK_DEADLOCK FALSE
VIEW View
PROPERTIES Grows
ACTION_CONSTRAINT Edge
