SPECIFICATION Spec
CONSTANTS Lenient = FALSE NonZero = FALSE
VIEW View
INVARIANTS TypeOK Plainly
PROPERTIES Stable
CHECK_DEADLOCK FALSE
ACTION_CONSTRAINT Edge
