SPECIFICATION Spec
CONSTANTS Methods = FALSE
  Names = {"p", "q"}
  Whos = {"1", "2"}
VIEW View
INVARIANT TypeOK
PROPERTIES Exactly
ACTION_CONSTRAINT Edge
CHECK_DEADLOCK FALSE
