SPECIFICATION Spec
CONSTANTS Members = {"fI", "fJ"} Fns = {1, 2} Hooking = FALSE Strict = TRUE MaxList = 2 Rets = {"V", "Z", "B", "C", "S", "I", "J", "F", "D", "L", "["}
INVARIANTS TypeOK
CHECK_DEADLOCK FALSE
VIEW View
PROPERTIES LastWins OnlyThatClass
ACTION_CONSTRAINT Edge
