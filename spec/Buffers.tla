------------------------------- MODULE Buffers -------------------------------
(* Property C22, direct buffers: address and capacity through every kind of reference, for as long as the
   buffer lives, and never anything else.  The memory itself belongs to the caller.                   *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json
CONSTANTS Bufs, Addrs, Caps, Others
VARIABLES what, refs, last
vars == <<what, refs, last>>
View == <<what, refs>>
Kinds == {"l", "g", "w", "n"} \* n: a native pointer
Strong(R) == R \cap {"l", "g", "n"} # {}
None == [addr |-> "none", cap |-> "0"]
Live(r) == [b \in Bufs |-> IF Strong(r[b]) THEN 1 ELSE 0]
Do(op, args, w, r, o) == what' = w /\ refs' = r /\ last' = [op |-> op, args |-> args, obs |-> [r |-> o, mem |-> "untouched"]]
New(b, a, c, how) == refs[b] = {} /\ Do("new", <<b, a, c, how>>, [what EXCEPT ![b] = [addr |-> a, cap |-> c]], [refs EXCEPT ![b] = {IF how = "native" THEN "n" ELSE "l"}], "java/nio/ByteBuffer")
\* references made through others; the target kind must be free
Ref(b, from, to) == from \in refs[b] /\ to \notin refs[b] /\ Strong(refs[b]) /\ Do("ref", <<b, from, to>>, what, [refs EXCEPT ![b] = @ \cup {to}], "ok")
Del(b, k) == k \in refs[b] /\ LET R == refs[b] \ {k} IN Do("del", <<b, k>>, IF R = {} THEN [what EXCEPT ![b] = None] ELSE what, [refs EXCEPT ![b] = R], "ok")
\* k: reference, how: the environment's functions, or what a native function that takes the buffer sees
Ask(b, k, how) == k \in refs[b] /\ Do("ask", <<b, k, how>>, what, refs, IF Strong(refs[b]) THEN what[b].addr \o " " \o what[b].cap ELSE "null -1")
AskOther(x) == Do("askother", <<x>>, what, refs, "null -1")
Init == what = [b \in Bufs |-> None] /\ refs = [b \in Bufs |-> {}] /\ last = [op |-> "init", args |-> <<>>, obs |-> 0]
Next == \/ \E b \in Bufs, a \in Addrs, c \in Caps, h \in {"jni", "native"} : New(b, a, c, h)
        \/ \E b \in Bufs, f \in Kinds, t \in Kinds : Ref(b, f, t)
        \/ \E b \in Bufs, k \in Kinds : Del(b, k)
        \/ \E b \in Bufs, k \in Kinds \ {"n"}, h \in {"jni", "shared", "raw"} : Ask(b, k, h)
        \/ \E x \in Others : AskOther(x)
Spec == Init /\ [][Next]_vars
TypeOK == \A b \in Bufs : what[b].addr \in Addrs \cup {"none"} /\ refs[b] \subseteq Kinds
\* address and capacity never change while the buffer is referenced
Constant == [][\A b \in Bufs : refs[b] # {} /\ refs'[b] # {} => what'[b] = what[b]]_vars
Edge == PrintT("E " \o ToJson([s |-> View, l |-> last', t |-> View']))
SimEdge == PrintT("S " \o ToJson([lv |-> TLCGet("level"), s |-> View, l |-> last', t |-> View']))
=============================================================================
