SPECIFICATION Spec
CONSTANTS Mode = "all" MaxLen = 2
  Units = {0, 1, 65, 127, 128, 2047, 2048, 4095, 4096, 55295, 55296, 56319, 56320, 57343, 57344, 65535}
VIEW View
INVARIANT RoundTrip
ACTION_CONSTRAINT Edge
CHECK_DEADLOCK FALSE
