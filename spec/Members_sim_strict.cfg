SPECIFICATION Spec
CONSTANTS Classes = {"O","A","B","C","I","J","D","F"} Inst = {"i:f:()I","i:f:(I)I","i:f:()V","i:F:()I","i:ff:()I","i:fI:()V"} Stat = {"s:f:()I","s:f:(I)I","s:ff:()I"} Ctor = {"c:<init>:()V","c:<init>:(I)V"} Fld = {"f:f:I","f:f:J","f:ff:I"} SFld = {"t:f:I","t:ff:I"} Variants = {"1","2","3"} Lenient = FALSE
ACTION_CONSTRAINT SimEdge
INVARIANTS TypeOK MostSpecific
CHECK_DEADLOCK FALSE
