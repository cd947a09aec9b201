SPECIFICATION Spec
CONSTANTS Keys = {"m1", "t1"} Slots = {"i", "j"} Others = {"string"}
INVARIANTS TypeOK OnlyKnown
CHECK_DEADLOCK FALSE
VIEW View
PROPERTIES RoundTrip
ACTION_CONSTRAINT Edge
