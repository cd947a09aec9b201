SPECIFICATION Spec
CONSTANTS Profile = "fields" MaxRules = 2 MaxHas = 1 Nesting = TRUE
VIEW View
INVARIANTS TypeOK Everything
PROPERTIES FailsIff NoTrace Stays Separate Monotone
CHECK_DEADLOCK FALSE
ACTION_CONSTRAINT Edge
