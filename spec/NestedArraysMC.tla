--------------------------- MODULE NestedArraysMC ---------------------------
(* Instances of NestedArrays: the kinds each object of the pool may have *)
EXTENDS NestedArrays
KTwo(o) == CASE o = "a" -> {"leaf", "sub"} [] o = "b" -> {"A1", "S1"} [] OTHER -> {"A2"}
KInt(o) == CASE o = "a" -> {"ints"} [] o = "b" -> {"I2", "O1"} [] OTHER -> {"O2"}
KPlain(o) == CASE o = "a" -> {"leaf"} [] o = "b" -> {"P1", "O1"} [] OTHER -> {"P2", "O2"}
KDeep(o) == CASE o = "a" -> {"leaf"} [] o = "b" -> {"A1"} [] o = "c" -> {"A2"} [] OTHER -> {"A3"}
KAll(o) == IF o \in {"a", "b"} THEN {"leaf", "sub", "ints"} ELSE Arrays
=============================================================================
