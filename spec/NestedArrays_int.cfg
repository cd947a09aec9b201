SPECIFICATION Spec
CONSTANTS Objs = {"a", "b", "c"} KindOf <- KInt MaxLen = 2 Hows = {"l", "g", "w"}
INVARIANTS TypeOK Kept Typed Held
CHECK_DEADLOCK FALSE
VIEW View
PROPERTIES OneSlot
ACTION_CONSTRAINT Edge
