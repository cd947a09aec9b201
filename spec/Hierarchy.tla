----------------------------- MODULE Hierarchy -----------------------------
(* Property C06.  A declared hierarchy with a chain, an interface, several bases and a diamond:
       O <- A <- B <- C      O <- I <- J     D : A, I     F : B, D
   Classes are registered bases first (any such order); Z is a class nobody registered, Cls the
   class of classes.  One object at a time is created on every route by which objects reach native
   code, and looked at through a local, a global and a weak reference.                           *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json

CONSTANTS Types, Routes

VARIABLES reg, obj, last     \* registered types; class of the current object ("" none, "dead" collected)
vars == <<reg, obj, last>>
View == <<reg, obj>>

Bases(c) == CASE c = "A" -> <<"O">> [] c = "B" -> <<"A">> [] c = "C" -> <<"B">> [] c = "I" -> <<"O">>
              [] c = "D" -> <<"A", "I">> [] c = "F" -> <<"B", "D">> [] c = "J" -> <<"I">> [] OTHER -> <<>>
BaseSet(c) == {Bases(c)[i] : i \in DOMAIN Bases(c)}
RECURSIVE Up(_)
Up(c) == {c} \cup UNION {Up(b) : b \in BaseSet(c)}

Known == reg \cup {"O", "Z", "Cls"}
Ret(op, args, rg, o, r) == reg' = rg /\ obj' = o /\ last' = [op |-> op, args |-> args, obs |-> [r |-> r]]
Bool(b) == IF b THEN 1 ELSE 0

Init == reg = {} /\ obj = "" /\ last = [op |-> "init", args |-> <<>>, obs |-> 0]
Register(c) == BaseSet(c) \subseteq Known /\ Ret("hreg", <<c>>, reg \cup {c}, obj, 0)
Assign(c, d) == Ret("hassign", <<c, d>>, reg, obj, Bool(d \in Up(c)))
\* every name, registered or not: a class that nobody registered yet is related to itself only
All == Types \cup {"O", "Z", "Cls"}
UpNow(c) == IF c \in Known THEN Up(c) ELSE {c}
Matrix == Ret("hmatrix", <<>>, reg, obj, [c \in All |-> [d \in All |-> Bool(d \in UpNow(c))]])
Super(c) == Ret("hsuper", <<c>>, reg, obj, IF Len(Bases(c)) > 0 THEN Bases(c)[1] ELSE IF c = "Cls" THEN "*" ELSE "")
\* routes: 0 NewObject, 1 returned as its own type, 2 returned as Object, 3 returned as a base type,
\* 4 element of an object array that native code filled
CanRoute(c, k) == k = 3 => c \in {"B", "C", "D", "F", "J"} /\ (IF c \in {"B", "C"} THEN "A" ELSE "I") \in reg
Make(c, k) == CanRoute(c, k) /\ Ret("hmake", <<c, k>>, reg, c, c)
Kinds == IF obj = "" THEN {"n"} ELSE IF obj = "dead" THEN {"w", "n"} ELSE {"l", "g", "w", "n"}
ClassOf(k) == k # "n" /\ obj # "dead" /\ Ret("hclass", <<k>>, reg, obj, obj)
Inst(k, c) == Ret("hinst", <<k, c>>, reg, obj, Bool(k # "n" /\ obj # "dead" /\ c \in Up(obj)))
Drop == obj \notin {"", "dead"} /\ Ret("hdrop", <<>>, reg, "dead", 0)

Next == \/ \E c \in Types : Register(c)
        \/ \E c, d \in Known : Assign(c, d)
        \/ Matrix
        \/ \E c \in Known : Super(c)
        \/ \E c \in reg, k \in Routes : Make(c, k)
        \/ \E k \in Kinds : ClassOf(k)
        \/ \E k \in Kinds, c \in Known : Inst(k, c)
        \/ Drop
Spec == Init /\ [][Next]_vars

TypeOK == reg \subseteq Types /\ obj \in reg \cup {"", "dead"}
\* assignability is a partial order generated by the declared bases
Order == /\ \A c \in Known : c \in Up(c)
         /\ \A c, d, e \in Known : (d \in Up(c) /\ e \in Up(d)) => e \in Up(c)
         /\ \A c, d \in Known : (d \in Up(c) /\ c \in Up(d)) => c = d
Edge == PrintT("E " \o ToJson([s |-> View, l |-> last', t |-> View']))
SimEdge == PrintT("S " \o ToJson([lv |-> TLCGet("level"), s |-> View, l |-> last', t |-> View']))
=============================================================================
