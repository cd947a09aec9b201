------------------------------- MODULE Rehook ------------------------------
(* Property C24, second part.  Names of one class are hooked again and again in different forms and
   shapes.  A hook replaces exactly the implementations of the keys (kind, name and signature) that
   it provides; ids that were handed out stay those of their key and reach its newest implementation.
   Strict lookups.                                                                                *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json
CONSTANTS Methods, Names, Whos
\* Methods: use the method hooks (else the field hooks)
VARIABLES tbl, last     \* tbl[name][slot]: implementation, or "none"
vars == <<tbl, last>>
View == tbl

Obj == "(Ljava/lang/Object;I)I"
Cls == "(Ljava/lang/Class;I)I"
\* a hook: name of the form, its shape (environment / lead / parameters / result), the slots it fills
Hooks == IF Methods THEN
            << [f |-> "inst", s |-> "e/o/I/I", k |-> {"i:" \o Obj, "i:(I)I"}], [f |-> "instf", s |-> "n/-/I/I", k |-> {"i:(I)I"}],
               [f |-> "mem", s |-> "e/mf/I/I", k |-> {"i:(I)I"}], [f |-> "hook", s |-> "e/-/I/I", k |-> {"s:(I)I"}], [f |-> "hook", s |-> "-/k/I/I", k |-> {"s:" \o Cls, "s:(I)I"}] >>
         ELSE << [f |-> "iget", s |-> "e/-/-/I", k |-> {"f:I.get"}], [f |-> "iget", s |-> "e/-/-/J", k |-> {"f:J.get"}], [f |-> "iset", s |-> "e/o/I/V", k |-> {"f:I.set"}],
                 [f |-> "get", s |-> "e/c/-/I", k |-> {"g:I.get"}], [f |-> "set", s |-> "e/-/I/V", k |-> {"g:I.set"}] >>
Slots == UNION {Hooks[i].k : i \in DOMAIN Hooks}
\* the id a slot belongs to: getter and setter of a field have one id
Id(x) == CASE x \in {"f:I.get", "f:I.set"} -> "f:I" [] x = "f:J.get" -> "f:J" [] x \in {"g:I.get", "g:I.set"} -> "g:I" [] OTHER -> x
Ids == {Id(x) : x \in Slots}
Exists(n, id) == \E x \in Slots : Id(x) = id /\ tbl[n][x] # "none"
Who(h, w) == IF h.f = "mem" THEN "mem" ELSE w

Do(op, args, t, o) == tbl' = t /\ last' = [op |-> op, args |-> args, obs |-> [r |-> o]]
Hook(n, h, w) == Do("hook", <<n, h.f, h.s, w>>, [tbl EXCEPT ![n] = [x \in Slots |-> IF x \in h.k THEN Who(h, w) ELSE tbl[n][x]]], 1)
Look(n, id) == Do("look", <<n, id>>, tbl, IF Exists(n, id) THEN 1 ELSE 0)
Use(n, x) == Exists(n, Id(x)) /\ Do("use", <<n, Id(x), x \in {"f:I.set", "g:I.set"}>>, tbl, IF tbl[n][x] = "none" THEN "nothing ran" ELSE tbl[n][x])
\* the implementation that runs hooks its own member again: it runs to its end, and the next use gets the other one
UseHook(n, x, h, w) == /\ Exists(n, Id(x)) /\ tbl[n][x] # "none" /\ x \in h.k
                       /\ Do("usehook", <<n, Id(x), x \in {"f:I.set", "g:I.set"}, h.f, h.s, w>>, [tbl EXCEPT ![n] = [y \in Slots |-> IF y \in h.k THEN Who(h, w) ELSE tbl[n][y]]], tbl[n][x])
\* looking up an id right after it comes to exist, so that it is the one later uses go through
Init == tbl = [n \in Names |-> [x \in Slots |-> "none"]] /\ last = [op |-> "init", args |-> <<>>, obs |-> 0]
Next == \/ \E n \in Names, i \in DOMAIN Hooks, w \in Whos : (n = "p" \/ i = 2) /\ Hook(n, Hooks[i], w)
        \/ \E n \in Names, id \in Ids : Look(n, id)
        \/ \E n \in Names, x \in Slots : Use(n, x)
        \/ \E n \in Names, x \in Slots, i \in DOMAIN Hooks, w \in Whos : (n = "p" \/ i = 2) /\ UseHook(n, x, Hooks[i], w)
Spec == Init /\ [][Next]_vars
TypeOK == tbl \in [Names -> [Slots -> Whos \cup {"none", "mem"}]]
\* an implementation is never lost, and only the slots of the hook change
Exactly == [][\A n \in Names, x \in Slots : (tbl'[n][x] # tbl[n][x]) => /\ last'.op \in {"hook", "usehook"} /\ last'.args[1] = n /\ tbl'[n][x] # "none"
                 /\ \E i \in DOMAIN Hooks : Hooks[i].f = last'.args[IF last'.op = "hook" THEN 2 ELSE 4] /\ Hooks[i].s = last'.args[IF last'.op = "hook" THEN 3 ELSE 5] /\ x \in Hooks[i].k]_vars
Edge == PrintT("E " \o ToJson([s |-> View, l |-> last', t |-> View']))
=============================================================================
