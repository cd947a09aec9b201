SPECIFICATION Spec
CONSTANTS Threads = {"w"} VMs = {"A", "B"} Kinds = {"lenient", "bare", "hooked"} Names = {} Objs = {} Hooks = {"h1", "h2", "h3"} MaxHooks = 2 Parts = {"hooks"}
INVARIANTS OneFake OneOwner DownIsEmpty NoEnvNoState
CHECK_DEADLOCK FALSE
VIEW View
PROPERTIES Independent TablesStay Failed
ACTION_CONSTRAINT Edge
