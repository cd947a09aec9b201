SPECIFICATION Spec
CONSTANTS Slots = {"a", "b", "c"} Objs = {"l", "m", "s", "b", "o", "l2"} ClassOf <- CWide MaxLen = 3 Elems = {"Plain", "Object", "Base", "Mid", "Leaf", "Side", "Other"} Kinds = {"l", "g", "w"} Full = TRUE
INVARIANTS TypeOK Typed
CHECK_DEADLOCK FALSE
ACTION_CONSTRAINT SimEdge
