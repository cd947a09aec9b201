SPECIFICATION Spec
CONSTANTS Kinds = {"i", "s"} Names = {"x", "xx"} Types = {"J", "A", "O"} Vers = {1, 2} NV = 2 Handles = {"h", "i", "j"} Classes = {"B", "D"} Strict = TRUE
INVARIANT TypeOK
CHECK_DEADLOCK FALSE
ACTION_CONSTRAINT SimEdge
