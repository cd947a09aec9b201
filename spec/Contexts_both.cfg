SPECIFICATION Spec
CONSTANTS Threads = {"w", "x"} VMs = {"A", "B"} Objs = {} Depth = 1
INVARIANTS TypeOK Owner Attached
CHECK_DEADLOCK FALSE
VIEW View
PROPERTIES Restores NoMove OnlyOwn
ACTION_CONSTRAINT Edge
