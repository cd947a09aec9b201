SPECIFICATION Spec
CONSTANTS Types = {"I", "L", "D"}
  Routes = {"desc"} IFields = {"m", "sh", "gl"} SFields = {"sm", "ssh"}
  NV = 1 Kinds = {"l"}
INVARIANT TypeOK
CHECK_DEADLOCK FALSE
VIEW View
PROPERTIES OneCell Apart
ACTION_CONSTRAINT Edge
