SPECIFICATION Spec
CONSTANTS Kinds = {"Z","B","C","S","I","J","F","D","L","A","T","Q","W"} PairKinds = {"I","J","F","D","L"} NV = 7
 Forms = {"iv","il","ia","nv","nl","na","sv","sl","sa","cv","cl","ca","m","t"}
VIEW View
ACTION_CONSTRAINT Edge
PROPERTIES Faithful
CHECK_DEADLOCK FALSE
