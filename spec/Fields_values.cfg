SPECIFICATION Spec
CONSTANTS Types = {"Z", "B", "C", "S", "I", "J", "F", "D", "L"}
  Routes = {"hook"} IFields = {"m", "gl"} SFields = {"sm"}
  NV = 2 Kinds = {"l"}
INVARIANT TypeOK
CHECK_DEADLOCK FALSE
VIEW View
PROPERTIES OneCell Apart
ACTION_CONSTRAINT Edge
