SPECIFICATION Spec
CONSTANTS Types = {"A", "B", "C", "I", "D", "F", "J"} Routes = {0, 1, 2, 3, 4}
VIEW View
ACTION_CONSTRAINT Edge
INVARIANTS TypeOK Order
CHECK_DEADLOCK FALSE
