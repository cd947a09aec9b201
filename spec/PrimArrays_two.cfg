SPECIFICATION Spec
CONSTANTS Types = {"I"} Slots = {"a", "b"} MaxLen = 2 NV = 1 Kinds = {"l"}
INVARIANT TypeOK
CHECK_DEADLOCK FALSE
VIEW View
PROPERTIES FixedLength ZeroNew OneArray OnlyRegion
ACTION_CONSTRAINT Edge
