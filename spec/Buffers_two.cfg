SPECIFICATION Spec
CONSTANTS Bufs = {"a", "b"} Addrs = {"page", "odd"} Caps = {"4096"} Others = {"null"}
INVARIANTS TypeOK
CHECK_DEADLOCK FALSE
VIEW View
PROPERTIES Constant
ACTION_CONSTRAINT Edge
