SPECIFICATION Spec
CONSTANTS Profile = "classes" MaxRules = 0 MaxHas = 0 Nesting = FALSE
VIEW View
INVARIANTS TypeOK Everything
PROPERTIES FailsIff NoTrace Stays Separate Monotone
CHECK_DEADLOCK FALSE
ACTION_CONSTRAINT Edge
