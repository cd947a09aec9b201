------------------------------ MODULE Classes ------------------------------
(* Property C04.  The class table of one VM.  `ex` is the set of names that denote a class; every
   way of naming a class either adds its name or, in strict mode, answers null and adds nothing.
   The observation after every call is the identity and the name of the class that was answered
   (1: the class of that name, the same object as ever and of no other name; 0: null) and the set
   of names a strict lookup finds afterwards.                                                    *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json

CONSTANTS Names,      \* the names that are used
          Typed,      \* names that native types are registered under
          Lenient,    \* mode of the VM
          Nesting     \* naming a nested class names the enclosing classes as well (debug builds)

VARIABLES ex, last
vars == <<ex, last>>
View == ex

Outer(n) == IF ~Nesting THEN {} ELSE
            CASE n = "a/X$Y" -> {"a/X"}
              [] n = "a/X$Y$Z" -> {"a/X", "a/X$Y"}
              [] n = "a/X$Z" -> {"a/X"}
              [] n = "a/X$" -> {"a/X"}
              [] n = "X$Y" -> {"X"}
              [] n = "a/b/X$Y" -> {"a/b/X"}
              [] OTHER -> {}
ArrayOf(n) == CASE n = "a/X" -> "[La/X;" [] n = "[La/X;" -> "[[La/X;" [] n = "X" -> "[LX;"
                [] n = "a/X$Y" -> "[La/X$Y;" [] n = "[I" -> "[[I" [] n = "a/b/X" -> "[La/b/X;" [] OTHER -> ""
IsArray(n) == n \in {"[La/X;", "[[La/X;", "[LX;", "[La/X$Y;", "[I", "[[I", "[La/b/X;", "[J"}
With(S, n) == S \cup {n} \cup Outer(n)

Ret(op, args, S, r, name) ==
    /\ ex' = S
    /\ last' = [op |-> op, args |-> args,
                obs |-> [r |-> r, name |-> name, known |-> [n \in Names |-> IF n \in S THEN 1 ELSE 0]]]

Init == ex = {} /\ last = [op |-> "init", args |-> <<>>, obs |-> 0]

\* k = 0 FindClass, 1 FindClass on another attached thread
Find(n, k) == IF n \in ex \/ Lenient THEN Ret("find", <<n, k>>, With(ex, n), 1, n)
                                     ELSE Ret("find", <<n, k>>, ex, 0, "")
\* lookup that is strict in either mode
Strict(n) == Ret("strict", <<n>>, ex, IF n \in ex THEN 1 ELSE 0, IF n \in ex THEN n ELSE "")
\* native lookup: creates in either mode
Native(n) == Ret("native", <<n>>, With(ex, n), 1, n)
\* registration of a native type under a name (again and again)
Register(n) == Ret("register", <<n>>, With(ex, n), 1, n)
\* mention in the signature of a member that native code asks for: k = 0 argument, 1 result, 2 field,
\* 3 argument after an array and before primitives.  Strict mode answers null and creates nothing.
Mention(n, k) == ~IsArray(n) /\ IF Lenient /\ Nesting THEN Ret("mention", <<n, k>>, With(ex, n), 0, "")
                 ELSE Ret("mention", <<n, k>>, ex, 0, "")
\* an array of a class: its class is the array class of that name
NewArray(n) == n \in ex /\ ArrayOf(n) \in Names /\ Ret("array", <<n, ArrayOf(n)>>, With(ex, ArrayOf(n)), 1, ArrayOf(n))
NewIntArray == "[I" \in Names /\ Ret("intarray", <<"[I">>, With(ex, "[I"), 1, "[I")
\* the class of a new object of a registered native type
ObjClass(n) == n \in ex /\ Ret("objclass", <<n>>, With(ex, n), 1, n)

Next == \/ \E n \in Names, k \in 0..1 : Find(n, k)
        \/ \E n \in Names : Strict(n)
        \/ \E n \in Names : Native(n)
        \/ \E n \in Typed : Register(n)
        \/ \E n \in Names, k \in 0..3 : Mention(n, k)
        \/ \E n \in Names : NewArray(n)
        \/ NewIntArray
        \/ \E n \in Typed : ObjClass(n)
Spec == Init /\ [][Next]_vars

(* ---- C04 ---- *)
TypeOK == ex \subseteq Names
Permanent == [][ex \subseteq ex']_vars
StrictLeavesNoTrace == [][(last'.op = "strict" \/ (last'.op = "find" /\ ~Lenient)) => ex' = ex]_vars
AnswerIffKnown == [][last'.op \in {"strict", "find"} => (last'.obs.r = 1 <=> last'.args[1] \in ex')]_vars

Edge == PrintT("E " \o ToJson([s |-> View, l |-> last', t |-> View']))
SimEdge == PrintT("S " \o ToJson([lv |-> TLCGet("level"), s |-> View, l |-> last', t |-> View']))
=============================================================================
