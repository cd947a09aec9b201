SPECIFICATION Spec
CONSTANTS Types = {"I", "L"}
  Routes = {"hook"} IFields = {"m", "sh"} SFields = {"sm", "ssh"}
  NV = 1 Kinds = {"l", "g"}
INVARIANT TypeOK
CHECK_DEADLOCK FALSE
VIEW View
PROPERTIES OneCell Apart
ACTION_CONSTRAINT Edge
