SPECIFICATION Spec
CONSTANTS Profile = "ctors" MaxRules = 1 MaxHas = 2 Nesting = TRUE
VIEW View
INVARIANTS TypeOK Everything
PROPERTIES FailsIff NoTrace Stays Separate Monotone
CHECK_DEADLOCK FALSE
ACTION_CONSTRAINT Edge
