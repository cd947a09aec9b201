------------------------------- MODULE Fields -------------------------------
(* Property C10.  Two classes, D derived from B, one object of each, and fields of one JNI type (chosen
   by the first step) bound in every supported way: to a member, to a variable (as a static field, or as
   a field of every object), to accessors of both or of one direction, or not at all.  Storage is a set
   of cells; a field read through class c on object o names one of them.  Every access names the value
   read, the accessors that ran with what they were given, and afterwards the content of all cells.
   Values are indices 0..NV into the boundary values of the type, 0 its zero.                        *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json
CONSTANTS Types, Routes, IFields, SFields, NV, Kinds
VARIABLES pick, cell, last
vars == <<pick, cell, last>>
View == <<pick, cell>>
Cells == {"Bm", "Dm", "Bsh", "Dsh", "DshD", "Bp", "Dp", "Bacc", "Dacc", "sm", "ssh", "sshD", "gl", "sacc"}
Vals == 0..NV
Classes == {"B", "D"}

\* how the field with this name, looked up through class c, is bound
Bind(f, c) == CASE f = "m" -> [k |-> "cell", s |-> "m"] [] f = "sh" /\ c = "B" -> [k |-> "cell", s |-> "sh"] [] f = "sh" /\ c = "D" -> [k |-> "own", s |-> "DshD"]
              [] f = "p" -> [k |-> "cell", s |-> "p"] [] f = "gl" -> [k |-> "var", s |-> "gl"]
              [] f = "acc" -> [k |-> "acc", s |-> "acc"] [] f = "ro" -> [k |-> "ro", s |-> "acc"] [] f = "wo" -> [k |-> "wo", s |-> "acc"] [] f = "un" -> [k |-> "none", s |-> ""]
SBind(f, c) == CASE f = "sm" -> [k |-> "var", s |-> "sm"] [] f = "ssh" /\ c = "B" -> [k |-> "var", s |-> "ssh"] [] f = "ssh" /\ c = "D" -> [k |-> "var", s |-> "sshD"]
              [] f = "sacc" -> [k |-> "acc", s |-> "sacc"] [] f = "sro" -> [k |-> "ro", s |-> "sacc"] [] f = "swo" -> [k |-> "wo", s |-> "sacc"] [] f = "sun" -> [k |-> "none", s |-> ""]
CellOf(b, o) == IF b.k \in {"cell", "acc", "ro", "wo"} /\ b.s # "sacc" THEN o \o b.s ELSE b.s
Reads(b) == b.k \in {"cell", "own", "var", "acc", "ro"}
Writes(b) == b.k \in {"cell", "own", "var", "acc", "wo"}
Ran(b, f, dir, o) == IF (b.k = "acc") \/ (b.k = "ro" /\ dir = "get") \/ (b.k = "wo" /\ dir = "set") THEN <<f \o "." \o dir \o " " \o o>> ELSE <<>>

Do(op, args, cl, r, calls) == /\ cell' = cl /\ last' = [op |-> op, args |-> args, obs |-> [r |-> r, calls |-> calls, cells |-> cl]] /\ UNCHANGED pick
Got(b, o) == IF Reads(b) THEN cell[CellOf(b, o)] ELSE 0
Put(b, o, v) == IF Writes(b) THEN [cell EXCEPT ![CellOf(b, o)] = v] ELSE cell

Pick(ty, rt) == /\ pick = "" /\ pick' = ty \o rt /\ cell' = cell
                /\ last' = [op |-> "pick", args |-> <<ty, rt>>, obs |-> [r |-> 0, calls |-> <<>>, cells |-> cell]]
On == pick # ""
Fits(b, o) == b.k # "own" \/ o = "D"
Get(f, c, o, k) == On /\ Fits(Bind(f, c), o) /\ Do("get", <<f, c, o, k>>, cell, Got(Bind(f, c), o), Ran(Bind(f, c), f, "get", o))
Set(f, c, o, k, v) == On /\ Fits(Bind(f, c), o) /\ Do("set", <<f, c, o, k, v>>, Put(Bind(f, c), o, v), 0, Ran(Bind(f, c), f, "set", o))
SGet(f, c, u) == On /\ Do("sget", <<f, c, u>>, cell, Got(SBind(f, c), u), Ran(SBind(f, c), f, "get", u))
SSet(f, c, u, v) == On /\ Do("sset", <<f, c, u, v>>, Put(SBind(f, c), u, v), 0, Ran(SBind(f, c), f, "set", u))
\* native code writes the storage
Native(x, v) == On /\ Do("native", <<x, v>>, [cell EXCEPT ![x] = v], 0, <<>>)
Used == {CellOf(Bind(f, c), o) : f \in IFields, c \in Classes, o \in Classes} \cup {CellOf(SBind(f, c), "B") : f \in SFields, c \in Classes}

Init == pick = "" /\ cell = [x \in Cells |-> 0] /\ last = [op |-> "init", args |-> <<>>, obs |-> 0]
Next == \/ \E ty \in Types, rt \in Routes : Pick(ty, rt)
        \/ \E f \in IFields, c \in Classes, o \in Classes, k \in Kinds : Get(f, c, o, k)
        \/ \E f \in IFields, c \in Classes, o \in Classes, k \in Kinds, v \in Vals : Set(f, c, o, k, v)
        \/ \E f \in SFields, c \in Classes, u \in Classes : SGet(f, c, u)
        \/ \E f \in SFields, c \in Classes, u \in Classes, v \in Vals : SSet(f, c, u, v)
        \/ \E x \in Used \cap Cells, v \in Vals : Native(x, v)
Spec == Init /\ [][Next]_vars
(* ---- C10 ---- *)
TypeOK == cell \in [Cells -> Vals]
\* a read changes nothing; a write changes at most one cell, to the value given
OneCell == [][/\ (last'.op \in {"get", "sget"} => cell' = cell)
              /\ Cardinality({x \in Cells : cell'[x] # cell[x]}) <= 1
              /\ \A x \in Cells : cell'[x] # cell[x] => cell'[x] = last'.args[Len(last'.args)]]_vars
\* objects do not share members
Apart == [][\A o \in Classes, p \in Classes : (o # p /\ last'.op = "set" /\ last'.args[3] = o) =>
              \A x \in {"m", "sh", "p", "acc"} : cell'[p \o x] = cell[p \o x]]_vars
Edge == PrintT("E " \o ToJson([s |-> View, l |-> last', t |-> View']))
SimEdge == PrintT("S " \o ToJson([lv |-> TLCGet("level"), s |-> View, l |-> last', t |-> View']))
=============================================================================
