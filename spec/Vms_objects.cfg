SPECIFICATION Spec
CONSTANTS Threads = {"w", "x"} VMs = {"A", "B"} Kinds = {"lenient", "fake"} Names = {"n/A"} Objs = {"o"} Hooks = {} MaxHooks = 0 Parts = {"objects", "members"}
INVARIANTS OneFake OneOwner DownIsEmpty NoEnvNoState
CHECK_DEADLOCK FALSE
VIEW View
PROPERTIES Independent TablesStay Failed
ACTION_CONSTRAINT Edge
