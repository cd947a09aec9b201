SPECIFICATION Spec
CONSTANTS Types = {"Z", "B", "C", "S", "I", "J", "F", "D", "L"}
  Routes = {"hook"} IFields = {"acc", "ro", "wo", "un"} SFields = {"sacc", "sro", "swo", "sun"}
  NV = 1 Kinds = {"l", "g", "w"}
INVARIANT TypeOK
CHECK_DEADLOCK FALSE
VIEW View
PROPERTIES OneCell Apart
ACTION_CONSTRAINT Edge
