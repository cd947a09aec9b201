SPECIFICATION Spec
CONSTANTS Mode = "grow" MaxLen = 2
  Units = {0, 65, 2047, 65535}
VIEW View
INVARIANT RoundTrip
ACTION_CONSTRAINT Edge
CHECK_DEADLOCK FALSE
