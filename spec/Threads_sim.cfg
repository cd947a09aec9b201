SPECIFICATION Spec
CONSTANTS NT = 4 NObj = 4 AttKinds = {0, 1, 2, 3}
INVARIANTS TypeOK DetachedIsEmpty AliveIffHeld
CHECK_DEADLOCK FALSE
ACTION_CONSTRAINT SimEdge
