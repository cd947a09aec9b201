SPECIFICATION Spec
CONSTANTS NObj = 4 NG = 5 NW = 5 MaxLoc = 4 UseKinds = {0, 1, 2, 3, 4, 5}
INVARIANTS TypeOK GlobalPins WeakNeverDangles WeakNeverPins
CHECK_DEADLOCK FALSE
ACTION_CONSTRAINT SimEdge
