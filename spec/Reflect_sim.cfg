SPECIFICATION Spec
CONSTANTS Keys = {"m1", "m2", "m3", "s1", "s2", "c1", "c2", "f1", "f2", "t1", "t2"} Slots = {"i", "j", "k"} Others = {"string", "class", "buffer", "throwable"}
INVARIANTS TypeOK OnlyKnown
CHECK_DEADLOCK FALSE
ACTION_CONSTRAINT SimEdge
