SPECIFICATION Spec
CONSTANTS Types = {"Z", "B", "C", "S", "I", "J", "F", "D", "L"}
  Routes = {"hook"} IFields = {"m", "p"} SFields = {"sm"}
  NV = 1 Kinds = {"l", "g", "w"}
INVARIANT TypeOK
CHECK_DEADLOCK FALSE
VIEW View
PROPERTIES OneCell Apart
ACTION_CONSTRAINT Edge
