SPECIFICATION Spec
CONSTANTS Classes = {"A","B","C"} Inst = {"i:f:()I"} Stat = {"s:f:()I"} Ctor = {"c:<init>:()V"} Fld = {} SFld = {} Variants = {"1"} Lenient = FALSE
VIEW View
ACTION_CONSTRAINT Edge
INVARIANTS TypeOK MostSpecific
PROPERTIES Monotone OneEntry Stable StrictNull
CHECK_DEADLOCK FALSE
