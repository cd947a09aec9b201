SPECIFICATION Spec
CONSTANTS Types = {"Z", "B", "C", "S", "I", "J", "F", "D"} Slots = {"a"} MaxLen = 2 NV = 2 Kinds = {"l", "g", "w"}
INVARIANT TypeOK
CHECK_DEADLOCK FALSE
VIEW View
PROPERTIES FixedLength ZeroNew OneArray OnlyRegion
ACTION_CONSTRAINT Edge
