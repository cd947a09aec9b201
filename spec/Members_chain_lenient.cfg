SPECIFICATION Spec
CONSTANTS Classes = {"A","B","C"} Inst = {"i:f:()I"} Stat = {"s:f:()I"} Ctor = {} Fld = {} SFld = {} Variants = {"1"} Lenient = TRUE
VIEW View
ACTION_CONSTRAINT Edge
INVARIANTS TypeOK MostSpecific
PROPERTIES Monotone OneEntry Stable StrictNull
CHECK_DEADLOCK FALSE
