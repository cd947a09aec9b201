SPECIFICATION Spec
CONSTANTS Paths = {"a", "st", "late.so", "na", "nb"} Sets = {"A", "B"}
INVARIANTS TypeOK
CHECK_DEADLOCK FALSE
VIEW View
PROPERTIES OnceEach Direct
ACTION_CONSTRAINT Edge
