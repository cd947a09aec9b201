SPECIFICATION Spec
CONSTANTS Types = {"S", "J"} Slots = {"a"} MaxLen = 4 NV = 1 Kinds = {"l"}
INVARIANT TypeOK
CHECK_DEADLOCK FALSE
VIEW View
PROPERTIES FixedLength ZeroNew OneArray OnlyRegion
ACTION_CONSTRAINT Edge
