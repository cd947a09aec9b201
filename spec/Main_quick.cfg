SPECIFICATION Spec
CONSTANTS NCallbacks = 2 MaxArgs = 2
INVARIANTS TypeOK
CHECK_DEADLOCK FALSE
VIEW View
PROPERTIES Neutral
ACTION_CONSTRAINT Edge
