SPECIFICATION Spec
CONSTANTS Kinds = {"i", "s"} Names = {"x"} Types = {"I"} Vers = {1} NV = 1 Handles = {"h"} Classes = {"B"} Strict = TRUE
INVARIANT TypeOK
PROPERTIES Own OneBinding Stable
CHECK_DEADLOCK FALSE
VIEW View
ACTION_CONSTRAINT Edge
