SPECIFICATION Spec
CONSTANTS Sim = FALSE Len0 = 2 NN = 2 NA = 1 NT = 1 NG = 0 NW = 0 MaxCnt = 1 MaxDepth = 1 MaxCalls = 0 CallKinds = {} Groups = {"heap","nat","same"}
VIEW View
INVARIANTS TypeOK NoDangling NoLeak AcyclicReachable
PROPERTIES DiesWithHolder Others
CHECK_DEADLOCK FALSE
ACTION_CONSTRAINT Edge
