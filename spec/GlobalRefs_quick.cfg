SPECIFICATION Spec
CONSTANTS NObj = 2 NG = 2 NW = 2 MaxLoc = 1 UseKinds = {0, 1, 2, 3, 4, 5}
VIEW View
ACTION_CONSTRAINT Edge
INVARIANTS TypeOK GlobalPins WeakNeverDangles WeakNeverPins
PROPERTIES DeleteIsLocal DeadStays
CHECK_DEADLOCK FALSE
