SPECIFICATION Spec
CONSTANTS NObj = 2 MaxDepth = 3 MaxCnt = 2 NewKinds = {0, 1, 2} GetKinds = {0, 1, 2, 3} Caps = {0, 5}
VIEW View
ACTION_CONSTRAINT Edge
INVARIANTS TypeOK AliveIffHeld
PROPERTIES DiesOnlyWithHolder PopExact
CHECK_DEADLOCK FALSE
