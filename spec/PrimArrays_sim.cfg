SPECIFICATION Spec
CONSTANTS Types = {"Z", "B", "C", "S", "I", "J", "F", "D"} Slots = {"a", "b", "c"} MaxLen = 4 NV = 2 Kinds = {"l", "g", "w"}
INVARIANT TypeOK
CHECK_DEADLOCK FALSE
ACTION_CONSTRAINT SimEdge
