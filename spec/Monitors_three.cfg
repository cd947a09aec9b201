SPECIFICATION Spec
CONSTANTS Threads = {"t1", "t2", "t3"} Objs = {"a", "b"} MaxCount = 2 Kinds = {"x"}
INVARIANTS TypeOK NoLostWake
CHECK_DEADLOCK FALSE
VIEW View
PROPERTIES Exclusive
ACTION_CONSTRAINT Edge
