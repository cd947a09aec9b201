SPECIFICATION Spec
CONSTANTS Threads = {"t1", "t2"} Objs = {"a"} MaxCount = 3 Kinds = {"l", "g", "w", "c"}
INVARIANTS TypeOK NoLostWake
CHECK_DEADLOCK FALSE
VIEW View
PROPERTIES Exclusive
ACTION_CONSTRAINT Edge
