SPECIFICATION Spec
CONSTANTS Threads = {1, 2} Objs = {1, 2}
  Forms = {"sv", "iA"} Rets = {"I"} Behs = {"ok", "thr1", "tnew1", "clr", "nestp"}
  Kinds = {"s", "n"} InvRets = {"V"}
VIEW View
INVARIANT TypeOK
PROPERTIES PerThread StaysUntilCleared
ACTION_CONSTRAINT Edge
CHECK_DEADLOCK FALSE
