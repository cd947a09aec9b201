SPECIFICATION Spec
CONSTANTS Threads = {"t1", "t2", "t3", "t4"} Objs = {"a", "b", "c"} MaxCount = 4 Kinds = {"l", "g", "w", "c"}
INVARIANTS TypeOK NoLostWake
CHECK_DEADLOCK FALSE
ACTION_CONSTRAINT SimEdge
