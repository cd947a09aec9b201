-------------------------------- MODULE Main ---------------------------------
(* Property C25.  Starting a VM runs the main method of the one class that has one, with the given
   arguments (one "main" by default), on the calling thread, attaching it for that time only.         *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json
CONSTANTS NCallbacks, MaxArgs
VARIABLES main, attached, last
vars == <<main, attached, last>>
View == <<main, attached>>
Do(op, args, m, a, o) == main' = m /\ attached' = a /\ last' = [op |-> op, args |-> args, obs |-> o]
\* main is hooked by one of the helper functions, or replaced
Create(k, how) == Do("create", <<k, how>>, k, attached, "ok")
Classes(n) == Do("classes", <<n>>, main, attached, "ok")
Args == UNION {[1..n -> {"x", "main"}] : n \in 0..MaxArgs}
Result(a) == IF main = 0 THEN "main with [Ljava/lang/String;)V not found in any class!" ELSE [cb |-> main, args |-> a, thread |-> TRUE]
Start(w, a) == Do("start", <<w, a>>, main, attached, [r |-> Result(a), still |-> IF w = "main" THEN TRUE ELSE attached])
StartDefault(w) == Do("startd", <<w>>, main, attached, [r |-> Result(<<"main">>), still |-> IF w = "main" THEN TRUE ELSE attached])
Attach == ~attached /\ Do("attach", <<>>, main, TRUE, "ok")
Detach == attached /\ Do("detach", <<>>, main, FALSE, "ok")
Init == main = 0 /\ attached = FALSE /\ last = [op |-> "init", args |-> <<>>, obs |-> 0]
Next == \/ \E k \in 1..NCallbacks, how \in {"shared", "raw"} : Create(k, how)
        \/ \E n \in {1, 30} : Classes(n)
        \/ \E w \in {"main", "thread"}, a \in Args : Start(w, a)
        \/ \E w \in {"main", "thread"} : StartDefault(w)
        \/ Attach \/ Detach
Spec == Init /\ [][Next]_vars
TypeOK == main \in 0..NCallbacks
\* starting changes nothing, in particular not whether the thread is attached
Neutral == [][last'.op \in {"start", "startd"} => UNCHANGED <<main, attached>> /\ last'.obs.still = (IF last'.args[1] = "main" THEN TRUE ELSE attached)]_vars
Edge == PrintT("E " \o ToJson([s |-> View, l |-> last', t |-> View']))
=============================================================================
