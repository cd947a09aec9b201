SPECIFICATION Spec
CONSTANTS Slots = {"a", "b"} Objs = {"m"} ClassOf <- CTyped MaxLen = 2 Elems = {"Object", "Mid", "Base"} Kinds = {"l"} Full = TRUE
INVARIANTS TypeOK Typed
CHECK_DEADLOCK FALSE
VIEW View
PROPERTIES OneSlot Kept
ACTION_CONSTRAINT Edge
