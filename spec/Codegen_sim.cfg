SPECIFICATION Spec
CONSTANTS Mode = "random" Chunks = 16 Max = 40 Forward = FALSE
INVARIANTS Closed Nested NoSystem Ordered
CHECK_DEADLOCK FALSE
ACTION_CONSTRAINT SimEdge
