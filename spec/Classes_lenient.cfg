SPECIFICATION Spec
CONSTANTS Names = {"a/X", "a/X$Y", "X", "[La/X;", "[[La/X;", "[I"} Typed = {"a/X", "a/X$Y", "X"} Lenient = TRUE Nesting = TRUE
VIEW View
ACTION_CONSTRAINT Edge
INVARIANTS TypeOK
PROPERTIES Permanent StrictLeavesNoTrace AnswerIffKnown
CHECK_DEADLOCK FALSE
