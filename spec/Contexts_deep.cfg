SPECIFICATION Spec
CONSTANTS Threads = {"w"} VMs = {"A"} Objs = {"o", "p"} Depth = 3
INVARIANTS TypeOK Owner Attached
CHECK_DEADLOCK FALSE
VIEW View
PROPERTIES Restores NoMove OnlyOwn
ACTION_CONSTRAINT Edge
