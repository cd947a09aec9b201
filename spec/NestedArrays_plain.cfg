SPECIFICATION Spec
CONSTANTS Objs = {"a", "b", "c"} KindOf <- KPlain MaxLen = 2 Hows = {"l"}
INVARIANTS TypeOK Kept Typed Held
CHECK_DEADLOCK FALSE
VIEW View
PROPERTIES OneSlot
ACTION_CONSTRAINT Edge
