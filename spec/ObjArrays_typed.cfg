SPECIFICATION Spec
CONSTANTS Slots = {"a"} Objs = {"m", "s"} ClassOf <- CTyped MaxLen = 2 Elems = {"Plain", "Object", "Base", "Mid"} Kinds = {"l", "g", "w"} Full = TRUE
INVARIANTS TypeOK Typed
CHECK_DEADLOCK FALSE
VIEW View
PROPERTIES OneSlot Kept
ACTION_CONSTRAINT Edge
