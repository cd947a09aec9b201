SPECIFICATION Spec
CONSTANTS Members = {"fI"} Fns = {1, 2} Hooking = TRUE Strict = TRUE MaxList = 2 Rets = {}
INVARIANTS TypeOK
CHECK_DEADLOCK FALSE
VIEW View
PROPERTIES LastWins OnlyThatClass
ACTION_CONSTRAINT Edge
