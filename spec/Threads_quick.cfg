SPECIFICATION Spec
CONSTANTS NT = 2 NObj = 2 AttKinds = {0, 1, 2, 3}
VIEW View
ACTION_CONSTRAINT Edge
INVARIANTS TypeOK DetachedIsEmpty AliveIffHeld
PROPERTIES Isolated
CHECK_DEADLOCK FALSE
