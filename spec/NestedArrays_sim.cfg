SPECIFICATION Spec
CONSTANTS Objs = {"a", "b", "c", "d", "e", "f", "g"} KindOf <- KAll MaxLen = 3 Hows = {"l", "g", "w"}
INVARIANTS TypeOK Kept Typed Held
CHECK_DEADLOCK FALSE
ACTION_CONSTRAINT SimEdge
