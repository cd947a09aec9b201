SPECIFICATION Spec
CONSTANTS Threads = {"w", "x"} VMs = {"A", "B", "C"} Kinds = {"lenient", "strict", "bare", "fake", "baron", "hooked"} Names = {"n/A", "n/B"} Objs = {"o", "p", "q"} Hooks = {"h1", "h2", "h3"} MaxHooks = 3 Parts = {"hooks", "tables", "invoke", "exceptions", "classes", "members", "objects"}
INVARIANTS OneFake OneOwner DownIsEmpty NoEnvNoState
CHECK_DEADLOCK FALSE
ACTION_CONSTRAINT SimEdge
