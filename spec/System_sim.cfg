SPECIFICATION Spec
CONSTANTS NN = 3 NA = 2 Len0 = 2 Sim = TRUE NT = 2 NG = 2 NW = 2 MaxCnt = 4 MaxDepth = 3 MaxCalls = 3 CallKinds = {"m", "f", "s", "nm", "nn"}
 Groups = {"heap", "kids", "root", "exc", "nat"}
INVARIANTS TypeOK NoDangling NoLeak AcyclicReachable
CHECK_DEADLOCK FALSE
ACTION_CONSTRAINT SimEdge
