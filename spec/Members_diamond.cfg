SPECIFICATION Spec
CONSTANTS Classes = {"A","B","I","D","F"} Inst = {"i:f:()I"} Stat = {} Ctor = {} Fld = {} SFld = {} Variants = {"1","2"} Lenient = TRUE
VIEW View
ACTION_CONSTRAINT Edge
INVARIANTS TypeOK MostSpecific
PROPERTIES Monotone OneEntry Stable StrictNull
CHECK_DEADLOCK FALSE
