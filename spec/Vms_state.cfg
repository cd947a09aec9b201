SPECIFICATION Spec
CONSTANTS Threads = {"w"} VMs = {"A", "B"} Kinds = {"lenient", "strict", "baron"} Names = {"n/A"} Objs = {} Hooks = {} MaxHooks = 0 Parts = {"exceptions", "classes", "invoke"}
INVARIANTS OneFake OneOwner DownIsEmpty NoEnvNoState
CHECK_DEADLOCK FALSE
VIEW View
PROPERTIES Independent TablesStay Failed
ACTION_CONSTRAINT Edge
