SPECIFICATION Spec
CONSTANTS Types = {"Z", "B", "C", "S", "I", "J", "F", "D", "L"}
  Routes = {"hook"} IFields = {"m", "sh", "p", "gl", "acc", "ro", "wo", "un"} SFields = {"sm", "ssh", "sacc", "sro", "swo", "sun"}
  NV = 2 Kinds = {"l", "g", "w"}
INVARIANT TypeOK
CHECK_DEADLOCK FALSE
ACTION_CONSTRAINT SimEdge
