SPECIFICATION Spec
CONSTANTS Members = {"fI", "fJ", "gI"} Fns = {1, 2, 3} Hooking = TRUE Strict = TRUE MaxList = 2 Rets = {"V", "Z", "B", "C", "S", "I", "J", "F", "D", "L", "["}
INVARIANTS TypeOK
CHECK_DEADLOCK FALSE
ACTION_CONSTRAINT SimEdge
