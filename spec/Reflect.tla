------------------------------- MODULE Reflect -------------------------------
(* Property C22, reflection.  Ids of members and the objects that stand for them.  `known` are the members
   whose id was asked for; a slot holds references of several kinds to one reflected object, or to some
   other object.  Converting back gives the id, and null for everything that is no such member.       *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json
CONSTANTS Keys, Slots, Others
VARIABLES known, slot, last
vars == <<known, slot, last>>
View == <<known, slot>>
\* keys are kind and name: m instance method, s static method, c constructor, f field, t static field
Kind(q) == CASE q \in {"m1", "m2", "m3"} -> "m" [] q \in {"s1", "s2"} -> "s" [] q \in {"c1", "c2"} -> "c" [] q \in {"f1", "f2"} -> "f" [] q \in {"t1", "t2"} -> "t" [] OTHER -> "other"
IsMethod(q) == Kind(q) \in {"m", "s", "c"}
IsField(q) == Kind(q) \in {"f", "t"}
IsStatic(q) == Kind(q) \in {"s", "t"}
Kinds == {"l", "g", "w"}
Free == [o |-> "", refs |-> {}]
Do(op, args, k, s, o) == known' = k /\ slot' = s /\ last' = [op |-> op, args |-> args, obs |-> o]
Id(q) == Do("id", <<q>>, known \cup {q}, slot, q)
\* cls: naming the class or a subclass
To(i, q, st, cls) == /\ q \in known /\ slot[i] = Free /\ ~(Kind(q) = "c" /\ st)
                     /\ IF st = IsStatic(q) THEN Do("to", <<i, q, st, cls>>, known, [slot EXCEPT ![i] = [o |-> q, refs |-> {"l"}]], "reflected") ELSE Do("to", <<i, q, st, cls>>, known, slot, "null")
\* conversions without class or id
ToNull(q, how) == q \in known /\ Do("tonull", <<q, how>>, known, slot, "null")
Other(i, x) == slot[i] = Free /\ Do("other", <<i, x>>, known, [slot EXCEPT ![i] = [o |-> x, refs |-> {"l"}]], "ok")
\* objects that stand for members live as long as the member, others as long as they are referenced; classes live on
Alive(i) == slot[i].o \notin {"string", "buffer", "throwable"} \/ slot[i].refs \cap {"l", "g"} # {}
Ref(i, from, to) == from \in slot[i].refs /\ to \notin slot[i].refs /\ Alive(i) /\ Do("ref", <<i, from, to>>, known, [slot EXCEPT ![i].refs = @ \cup {to}], "ok")
Del(i, k) == /\ k \in slot[i].refs
             /\ LET r == slot[i].refs \ {k} IN Do("del", <<i, k>>, known, [slot EXCEPT ![i] = IF r = {} THEN Free ELSE [@ EXCEPT !.refs = r]], "ok")
From(i, k, as) == /\ k \in slot[i].refs
                  /\ Do("from", <<i, k, as>>, known, slot, IF (IF as = "m" THEN IsMethod(slot[i].o) ELSE IsField(slot[i].o)) THEN slot[i].o ELSE "null")
FromNull(as) == Do("fromnull", <<as>>, known, slot, "null")
Class(i, k) == k \in slot[i].refs /\ Alive(i) /\ Do("class", <<i, k>>, known, slot, IF IsMethod(slot[i].o) THEN "java/lang/reflect/Method" ELSE IF IsField(slot[i].o) THEN "java/lang/reflect/Field" ELSE slot[i].o)
Same(i, k, j, l) == k \in slot[i].refs /\ l \in slot[j].refs /\ Alive(i) /\ Alive(j) /\ (IsMethod(slot[i].o) \/ IsField(slot[i].o)) = TRUE /\ Do("same", <<i, k, j, l>>, known, slot, slot[i].o = slot[j].o)
\* the id still works after the reflected object was let go
Use(q) == q \in known /\ Do("use", <<q>>, known, slot, q)

Init == known = {} /\ slot = [i \in Slots |-> Free] /\ last = [op |-> "init", args |-> <<>>, obs |-> 0]
Next == \/ \E q \in Keys : Id(q)
        \/ \E i \in Slots, q \in Keys, st \in BOOLEAN, cls \in {"own", "sub"} : To(i, q, st, cls)
        \/ \E q \in Keys, how \in {"class", "id"} : ToNull(q, how)
        \/ \E i \in Slots, x \in Others : Other(i, x)
        \/ \E i \in Slots, a \in Kinds, b \in Kinds : Ref(i, a, b)
        \/ \E i \in Slots, k \in Kinds : Del(i, k)
        \/ \E i \in Slots, k \in Kinds, as \in {"m", "f"} : From(i, k, as)
        \/ \E as \in {"m", "f"} : FromNull(as)
        \/ \E i \in Slots, k \in Kinds : Class(i, k)
        \/ \E i, j \in Slots, k, l \in Kinds : Same(i, k, j, l)
        \/ \E q \in Keys : Use(q)
Spec == Init /\ [][Next]_vars
TypeOK == known \subseteq Keys /\ \A i \in Slots : slot[i].refs \subseteq Kinds
\* only ids that were asked for are reflected, and every round trip ends where it began
OnlyKnown == \A i \in Slots : slot[i].o \in known \cup Others \cup {""}
RoundTrip == [][last'.op = "from" => (UNCHANGED <<known, slot>> /\ (last'.obs # "null" => (last'.obs \in known /\ last'.obs = slot[last'.args[1]].o)))]_vars
Edge == PrintT("E " \o ToJson([s |-> View, l |-> last', t |-> View']))
SimEdge == PrintT("S " \o ToJson([lv |-> TLCGet("level"), s |-> View, l |-> last', t |-> View']))
=============================================================================
