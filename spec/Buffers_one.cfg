SPECIFICATION Spec
CONSTANTS Bufs = {"a"} Addrs = {"null", "page", "odd", "high"} Caps = {"0", "1", "2147483648", "9223372036854775807"} Others = {"string", "class", "null", "array", "method"}
INVARIANTS TypeOK
CHECK_DEADLOCK FALSE
VIEW View
PROPERTIES Constant
ACTION_CONSTRAINT Edge
