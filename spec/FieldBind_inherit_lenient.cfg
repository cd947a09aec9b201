SPECIFICATION Spec
CONSTANTS Kinds = {"i"} Names = {"x"} Types = {"I"} Vers = {1} NV = 1 Handles = {"h"} Classes = {"B", "D"} Strict = FALSE
INVARIANT TypeOK
PROPERTIES Own OneBinding Stable
CHECK_DEADLOCK FALSE
VIEW View
ACTION_CONSTRAINT Edge
