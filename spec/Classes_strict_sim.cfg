SPECIFICATION Spec
CONSTANTS Names = {"a/X", "a/X$Y", "a/X$Y$Z", "a/X$Z", "a/X$", "X", "X$Y", "aX", "a/b/X", "a/b/X$Y", "b/X", "a", "[La/X;", "[[La/X;", "[LX;", "[La/X$Y;", "[I", "[[I", "[La/b/X;", "[J", "java/lang/Integer", "a//X"} Typed = {"a/X", "a/X$Y", "X"} Lenient = FALSE Nesting = TRUE
INVARIANTS TypeOK
ACTION_CONSTRAINT SimEdge
CHECK_DEADLOCK FALSE
