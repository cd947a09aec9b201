SPECIFICATION Spec
CONSTANTS Classes = {"A","B"} Inst = {} Stat = {} Ctor = {"c:<init>:()V"} Fld = {"f:f:I"} SFld = {"t:f:I"} Variants = {"1","2"} Lenient = TRUE
VIEW View
ACTION_CONSTRAINT Edge
INVARIANTS TypeOK MostSpecific
PROPERTIES Monotone OneEntry Stable StrictNull
CHECK_DEADLOCK FALSE
