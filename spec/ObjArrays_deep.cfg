SPECIFICATION Spec
CONSTANTS Slots = {"a"} Objs = {"l", "b"} ClassOf <- CLeaf MaxLen = 2 Elems = {"Base", "Mid", "Leaf", "Object"} Kinds = {"l"} Full = TRUE
INVARIANTS TypeOK Typed
CHECK_DEADLOCK FALSE
VIEW View
PROPERTIES OneSlot Kept
ACTION_CONSTRAINT Edge
