SPECIFICATION Spec
CONSTANTS Threads = {"w", "x", "y"} VMs = {"A", "B"} Objs = {"o", "p", "q", "r", "s"} Depth = 4
INVARIANTS TypeOK Owner Attached
CHECK_DEADLOCK FALSE
ACTION_CONSTRAINT SimEdge
