SPECIFICATION Spec
CONSTANTS Sim = FALSE Len0 = 1 NN = 2 NA = 1 NT = 1 NG = 0 NW = 1 MaxCnt = 1 MaxDepth = 1 MaxCalls = 0 CallKinds = {} Groups = {"heap","kids"}
VIEW View
INVARIANTS TypeOK NoDangling NoLeak AcyclicReachable
PROPERTIES DiesWithHolder Others
CHECK_DEADLOCK FALSE
ACTION_CONSTRAINT Edge
