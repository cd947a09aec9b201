-------------------------------- MODULE Deny ---------------------------------
(* Property C17.  Deny rules of the fabricating VM.  `has` are the members that exist (kind, class, name,
   signature), `ex` the classes, `rules` and `dcls` what was denied.  A lookup of a member or class that
   exists always succeeds; another one succeeds, and makes it exist, exactly when no rule matches.
   Naming a nested class, or a class in the signature of a fabricated member, makes those classes exist
   in builds with debug declarations.                                                                *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json
CONSTANTS Profile, MaxRules, MaxHas, Nesting
VARIABLES has, rules, ex, dcls, last
vars == <<has, rules, ex, dcls, last>>
View == <<has, rules, ex, dcls>>

MKeys == {"m", "s"} \X {"p/E", "p/S"} \X {"a"} \X {"()V"}
FKeys == {"f", "t"} \X {"p/E", "p/S"} \X {"x"} \X {"I"}
CKeys == {"c"} \X {"p/E", "p/S"} \X {"<init>"} \X {"()V", "(I)V"}
AllKeys == {"m", "s"} \X {"p/E", "p/S"} \X {"a", "b", "aa"} \X {"()V", "(I)V"} \cup {"f", "t"} \X {"p/E", "p/S"} \X {"x", "a"} \X {"I", "J"} \cup CKeys
Keys == CASE Profile = "methods" -> MKeys [] Profile = "fields" -> FKeys [] Profile = "ctors" -> CKeys [] Profile = "all" -> AllKeys [] OTHER -> {}
MRules == {"m"} \X {"", "a", "b"} \X {"", "()V", "(I)V"} \X {"", "p/E", "p/S"}
FRules == {"f"} \X {"", "x", "a"} \X {"", "I", "J"} \X {"", "p/E", "p/S"}
CRules == {"m"} \X {"", "<init>", "a"} \X {"", "()V", "(I)V"} \X {"", "p/E", "p/S"}
Rules == CASE Profile = "methods" -> MRules \cup {<<"f", "a", "()V", "p/E">>} [] Profile = "fields" -> FRules \cup {<<"m", "x", "I", "">>}
           [] Profile = "ctors" -> CRules [] Profile = "all" -> MRules \cup FRules \cup CRules [] OTHER -> {}
Names == IF Profile = "classes" THEN {"P/X", "P/Y", "P/X$I", "[LP/X;"} ELSE IF Profile = "all" THEN {"P/X", "P/Y", "P/X$I", "[LP/X;", "[[I", "X", "P/XX", "P/Q/X"} ELSE {}
Outer(n) == IF Nesting /\ n = "P/X$I" THEN {"P/X"} ELSE {}
Typed == {"P/Y"} \cap Names

Group(k) == IF k \in {"f", "t"} THEN "f" ELSE "m"
\* a part that is empty in the rule, or in the question, matches everything
Part(r, q) == r = "" \/ q = "" \/ r = q
Denied(g, n, s, c) == \E r \in rules : r[1] = g /\ Part(r[2], n) /\ Part(r[3], s) /\ Part(r[4], c)
Find(k, c, n, s) == IF <<k, c, n, s>> \in has THEN c ELSE IF c = "p/S" /\ k # "c" /\ <<k, "p/E", n, s>> \in has THEN "p/E" ELSE ""

Do(op, args, h, r, e, d, o) == has' = h /\ rules' = r /\ ex' = e /\ dcls' = d /\ last' = [op |-> op, args |-> args, obs |-> o]
\* t: 0 the thread of the VM, 1 another one
Lookup(q, t) == LET f == Find(q[1], q[2], q[3], q[4]) IN
    IF f # "" THEN Do("lookup", <<q[1], q[2], q[3], q[4], t, f>>, has, rules, ex, dcls, 1)
    ELSE IF Denied(Group(q[1]), q[3], q[4], q[2]) THEN Do("lookup", <<q[1], q[2], q[3], q[4], t, "">>, has, rules, ex, dcls, 0)
    ELSE Cardinality(has) < MaxHas /\ Do("lookup", <<q[1], q[2], q[3], q[4], t, q[2]>>, has \cup {q}, rules, ex, dcls, 1)
\* the member gets an implementation
Hook(q) == Cardinality(has \cup {q}) <= MaxHas /\ Do("hook", q, has \cup {q}, rules, ex, dcls, 0)
Deny(r, alias) == Cardinality(rules \cup {r}) <= MaxRules /\ Do("deny", <<r[1], r[2], r[3], r[4], alias>>, has, rules \cup {r}, ex, dcls, 0)
\* asks whether a member is denied, with and without naming the class
Ask(q, c) == Do("ask", <<Group(q[1]), q[3], q[4], c>>, has, rules, ex, dcls, IF Denied(Group(q[1]), q[3], q[4], c) THEN 1 ELSE 0)

\* native: FindClass of the VM rather than of the environment
FindC(n, how) == IF n \in ex THEN Do("find", <<n, how>>, has, rules, ex, dcls, 1)
                 ELSE IF n \in dcls THEN Do("find", <<n, how>>, has, rules, ex, dcls, 0)
                 ELSE Do("find", <<n, how>>, has, rules, ex \cup {n} \cup Outer(n), dcls, 1)
DenyC(n, alias) == Do("denyc", <<n, alias>>, has, rules, ex, dcls \cup {n}, 0)
AskC(n) == Do("askc", <<n>>, has, rules, ex, dcls, IF n \in dcls THEN 1 ELSE 0)
\* native code creates or registers the class: not subject to rules
Create(n) == Do("create", <<n>>, has, rules, ex \cup {n} \cup Outer(n), dcls, 1)
Register(n) == Do("register", <<n>>, has, rules, ex \cup {n}, dcls, 1)
\* the class is mentioned in the signature of a member that is looked up, k: fabricated, denied
Mention(n, k) == n \notin {"[LP/X;", "[[I"} /\ (\A r \in rules : r[2] # "") /\ Do("mention", <<n, k>>, has, rules, IF (Nesting /\ k = "ok") = TRUE THEN ex \cup {n} \cup Outer(n) ELSE ex, dcls, 1)

Init == has = {} /\ rules = {} /\ ex = {} /\ dcls = {} /\ last = [op |-> "init", args |-> <<>>, obs |-> 0]
Next == \/ \E q \in Keys, t \in 0..1 : Lookup(q, t)
        \/ \E q \in Keys : Hook(q)
        \/ \E r \in Rules, a \in 0..1 : Deny(r, a)
        \/ \E q \in Keys, c \in {"", "p/E", "p/S"} : Ask(q, c)
        \/ \E n \in Names, h \in {"jni", "thread", "native"} : FindC(n, h)
        \/ \E n \in Names, a \in 0..1 : DenyC(n, a)
        \/ \E n \in Names : AskC(n)
        \/ \E n \in Names : Create(n)
        \/ \E n \in Typed : Register(n)
        \/ \E n \in Names, k \in {"ok", "denied"} : Mention(n, k)
Spec == Init /\ [][Next]_vars

(* ---- C17 ---- *)
TypeOK == has \subseteq Keys /\ rules \subseteq Rules /\ ex \subseteq Names /\ dcls \subseteq Names
\* a direct lookup fails exactly when what it asks for does not exist and is denied
FailsIff == [][/\ last'.op = "lookup" => (last'.obs = 0 <=> (Find(last'.args[1], last'.args[2], last'.args[3], last'.args[4]) = "" /\ Denied(Group(last'.args[1]), last'.args[3], last'.args[4], last'.args[2])))
               /\ last'.op = "find" => (last'.obs = 0 <=> (last'.args[1] \notin ex /\ last'.args[1] \in dcls))]_vars
\* what fails makes nothing exist, and what exists stays
NoTrace == [][(last'.op \in {"lookup", "find"} /\ last'.obs = 0) => UNCHANGED <<has, ex>>]_vars
Stays == [][has \subseteq has' /\ ex \subseteq ex']_vars
\* rules of one sort never matter for the others
Separate == [][last'.op \in {"deny", "denyc"} => UNCHANGED <<has, ex>>]_vars
\* more rules never allow more, and a rule without any part denies everything of its sort
Monotone == [][\A q \in Keys : Denied(Group(q[1]), q[3], q[4], q[2]) => Denied(Group(q[1]), q[3], q[4], q[2])']_vars
Everything == \A g \in {"m", "f"} : <<g, "", "", "">> \in rules => \A q \in Keys : Group(q[1]) = g => Denied(g, q[3], q[4], q[2])
Edge == PrintT("E " \o ToJson([s |-> View, l |-> last', t |-> View']))
SimEdge == PrintT("S " \o ToJson([lv |-> TLCGet("level"), s |-> View, l |-> last', t |-> View']))
=============================================================================
