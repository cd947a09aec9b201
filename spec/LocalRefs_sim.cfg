SPECIFICATION Spec
CONSTANTS NObj = 4 MaxDepth = 7 MaxCnt = 4 NewKinds = {0, 1, 2} GetKinds = {0, 1, 2, 3} Caps = {0, 1, 5, 100}
INVARIANTS TypeOK AliveIffHeld
CHECK_DEADLOCK FALSE
ACTION_CONSTRAINT SimEdge
