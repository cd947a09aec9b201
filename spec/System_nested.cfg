SPECIFICATION Spec
CONSTANTS Sim = FALSE Len0 = 1 NN = 2 NA = 0 NT = 1 NG = 0 NW = 0 MaxCnt = 2 MaxDepth = 1 MaxCalls = 2 CallKinds = {"m","f","s","nm","nn"} Groups = {"exc"}
VIEW View
INVARIANTS TypeOK NoDangling NoLeak AcyclicReachable
PROPERTIES DiesWithHolder Others
CHECK_DEADLOCK FALSE
ACTION_CONSTRAINT Edge
