SPECIFICATION Spec
CONSTANTS Threads = {"w"} VMs = {"A", "B"} Kinds = {"lenient", "strict", "fake"} Names = {"n/A"} Objs = {} Hooks = {"h1"} MaxHooks = 0 Parts = {"tables", "classes"}
INVARIANTS OneFake OneOwner DownIsEmpty NoEnvNoState
CHECK_DEADLOCK FALSE
VIEW View
PROPERTIES Independent TablesStay Failed
ACTION_CONSTRAINT Edge
