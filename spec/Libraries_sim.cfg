SPECIFICATION Spec
CONSTANTS Paths = {"a", "st", "late.so", "stq", "gone/x", "plain", "empty", "gone.y", "dir/lib.so", "na", "nb"} Sets = {"A", "B"}
INVARIANTS TypeOK
CHECK_DEADLOCK FALSE
ACTION_CONSTRAINT SimEdge
