SPECIFICATION Spec
CONSTANTS Sim = FALSE Len0 = 1 NN = 1 NA = 0 NT = 2 NG = 1 NW = 0 MaxCnt = 1 MaxDepth = 1 MaxCalls = 1 CallKinds = {"s", "nn"} Groups = {"exc","root"}
VIEW View
INVARIANTS TypeOK NoDangling NoLeak AcyclicReachable
PROPERTIES DiesWithHolder Others
CHECK_DEADLOCK FALSE
ACTION_CONSTRAINT Edge
