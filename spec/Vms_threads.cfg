SPECIFICATION Spec
CONSTANTS Threads = {"w", "x"} VMs = {"A", "B"} Kinds = {"strict", "baron"} Names = {} Objs = {} Hooks = {"h1"} MaxHooks = 1 Parts = {"hooks"}
INVARIANTS OneFake OneOwner DownIsEmpty NoEnvNoState
CHECK_DEADLOCK FALSE
VIEW View
PROPERTIES Independent TablesStay Failed
ACTION_CONSTRAINT Edge
