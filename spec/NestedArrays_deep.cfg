SPECIFICATION Spec
CONSTANTS Objs = {"a", "b", "c", "d"} KindOf <- KDeep MaxLen = 1 Hows = {"l"}
INVARIANTS TypeOK Kept Typed Held
CHECK_DEADLOCK FALSE
VIEW View
PROPERTIES OneSlot
ACTION_CONSTRAINT Edge
