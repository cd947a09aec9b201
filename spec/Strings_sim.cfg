SPECIFICATION Spec
CONSTANTS Mode = "grow" MaxLen = 24
  Units = {0, 1, 65, 127, 128, 2047, 2048, 55296, 56320, 65535}
INVARIANT RoundTrip
ACTION_CONSTRAINT SimEdge
CHECK_DEADLOCK FALSE
