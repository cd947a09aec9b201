SPECIFICATION Spec
CONSTANTS Forms = {"inst", "instf", "hook", "hookp", "get", "iget", "set", "iset", "mem", "memc"}
VIEW View
PROPERTIES Visible AtMostTwo
ACTION_CONSTRAINT Edge
CHECK_DEADLOCK FALSE
