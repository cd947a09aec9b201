SPECIFICATION Spec
CONSTANTS Profile = "all" MaxRules = 5 MaxHas = 14 Nesting = TRUE
INVARIANTS TypeOK Everything
CHECK_DEADLOCK FALSE
ACTION_CONSTRAINT SimEdge
