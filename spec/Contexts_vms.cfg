SPECIFICATION Spec
CONSTANTS Threads = {"w"} VMs = {"A", "B"} Objs = {"o", "p"} Depth = 2
INVARIANTS TypeOK Owner Attached
CHECK_DEADLOCK FALSE
VIEW View
PROPERTIES Restores NoMove OnlyOwn
ACTION_CONSTRAINT Edge
