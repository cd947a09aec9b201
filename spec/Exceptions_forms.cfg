SPECIFICATION Spec
CONSTANTS Threads = {1} Objs = {}
  Forms = {"sv", "sV", "sA", "iv", "iV", "iA", "nv", "nV", "nA"}
  Rets = {"V", "Z", "B", "C", "S", "I", "J", "F", "D", "L", "N"}
  Behs = {"ok", "thr1", "thr2", "tnew1", "tnew2", "clr", "nest", "nestp", "nestthr"}
  Kinds = {"s", "i", "n"} InvRets = {"V", "Z", "B", "C", "S", "I", "J", "F", "D", "L"}
VIEW View
INVARIANT TypeOK
PROPERTIES PerThread StaysUntilCleared
ACTION_CONSTRAINT Edge
CHECK_DEADLOCK FALSE
