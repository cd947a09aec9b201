SPECIFICATION Spec
CONSTANTS Lenient = TRUE NonZero = TRUE
VIEW View
INVARIANTS TypeOK Plainly
PROPERTIES Stable
CHECK_DEADLOCK FALSE
ACTION_CONSTRAINT Edge
