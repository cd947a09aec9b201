SPECIFICATION Spec
CONSTANTS Threads = {1, 2, 3, 4} Objs = {1, 2}
  Forms = {"sv", "iA", "nV"} Rets = {"I", "L", "N", "V", "D"} Behs = {"ok", "thr1", "thr2", "tnew1", "tnew2", "clr", "nestp", "nest", "nestthr"}
  Kinds = {"s", "i", "n"} InvRets = {"V", "J"}
INVARIANT TypeOK
ACTION_CONSTRAINT SimEdge
CHECK_DEADLOCK FALSE
