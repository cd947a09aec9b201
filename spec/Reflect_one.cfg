SPECIFICATION Spec
CONSTANTS Keys = {"m1", "s1", "c1", "f1", "t1"} Slots = {"i"} Others = {"string", "class", "buffer"}
INVARIANTS TypeOK OnlyKnown
CHECK_DEADLOCK FALSE
VIEW View
PROPERTIES RoundTrip
ACTION_CONSTRAINT Edge
