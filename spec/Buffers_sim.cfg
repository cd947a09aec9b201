SPECIFICATION Spec
CONSTANTS Bufs = {"a", "b", "c", "d"} Addrs = {"null", "page", "odd", "high"} Caps = {"0", "1", "2147483648", "9223372036854775807"} Others = {"string", "class", "null", "array", "method"}
INVARIANTS TypeOK
CHECK_DEADLOCK FALSE
ACTION_CONSTRAINT SimEdge
