----------------------------- MODULE Exceptions ----------------------------
(* Property C09.  The pending exception of each thread: thrown by Throw (an existing throwable object),
   by ThrowNew, or by native code that was called and left by a C++ exception.  It is a strong reference
   to the throwable.  No call through the function table is ever left by an exception: it returns the
   default instead; native-side invocation ends by rethrowing whatever is pending.
   Exceptions: "m1","m2" thrown by implementations, "n1","n2" made by ThrowNew, "o1" a throwable object
   that carries a native exception, "o2" one that does not.  "-" none, "x" thread not attached.       *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json
CONSTANTS Threads, Objs, Forms, Rets, Behs, Kinds, InvRets
VARIABLES pend, nat, last
vars == <<pend, nat, last>>
View == <<pend, nat>>

ObjName(o) == IF o = 1 THEN "o1" ELSE "o2"
Held(p, n, o) == n[o] \/ \E t \in Threads : p[t] = ObjName(o)
Live(p, n) == [o \in Objs |-> IF Held(p, n, o) THEN 1 ELSE 0]
Do(op, args, p, n, r) == /\ pend' = p /\ nat' = n
                         /\ last' = [op |-> op, args |-> args, obs |-> [r |-> r, p |-> p, live |-> Live(p, n)]]
On(t) == pend[t] # "x"
P(t, e) == [pend EXCEPT ![t] = e]

\* what an implementation does: the exception it leaves pending (or what was there), and whether it is left by it
After(b, p) == CASE b = "thr1" -> "m1" [] b = "thr2" -> "m2" [] b = "tnew1" -> "n1" [] b = "tnew2" -> "n2"
               [] b = "ok" -> p [] b = "clr" -> "-" [] b = "nest" -> "-" [] b = "nestp" -> "m2" [] b = "nestthr" -> "m1"
Left(b) == b \in {"thr1", "thr2", "nestthr"}

ThrowNew(t, m) == On(t) /\ Do("thrownew", <<t, m>>, P(t, m), nat, 0)
Throw(t, o, k) == On(t) /\ Held(pend, nat, o) /\ Do("throw", <<t, o, k>>, P(t, ObjName(o)), nat, 0)
Clear(t) == On(t) /\ Do("clear", <<t>>, P(t, "-"), nat, 0)
Describe(t) == On(t) /\ Do("describe", <<t>>, pend, nat, 0)
Call(t, f, ty, b) == On(t) /\ Do("call", <<t, f, ty, b>>, P(t, After(b, pend[t])), nat, IF Left(b) THEN "dflt" ELSE "ok")
Invoke(t, k, ty, b) == /\ On(t)
                       /\ LET e == After(b, pend[t]) IN
                          Do("invoke", <<t, k, ty, b>>, P(t, e), nat, IF e = "-" THEN "ok" ELSE IF e = "o2" THEN "threw:?" ELSE "threw:" \o e)
Attach(t) == t # 1 /\ ~On(t) /\ Do("attach", <<t>>, P(t, "-"), nat, 0)
Detach(t) == t # 1 /\ On(t) /\ Do("detach", <<t>>, P(t, "x"), nat, 0)
Make(o) == ~Held(pend, nat, o) /\ Do("make", <<o>>, pend, [nat EXCEPT ![o] = TRUE], 0)
Drop(o) == nat[o] /\ Do("drop", <<o>>, pend, [nat EXCEPT ![o] = FALSE], 0)

Init == pend = [t \in Threads |-> "-"] /\ nat = [o \in Objs |-> FALSE] /\ last = [op |-> "init", args |-> <<>>, obs |-> 0]
Next == \/ \E t \in Threads, m \in {"n1", "n2"} : ThrowNew(t, m)
        \/ \E t \in Threads, o \in Objs, k \in {"l", "g", "w"} : Throw(t, o, k)
        \/ \E t \in Threads : Clear(t)
        \/ \E t \in Threads : Describe(t)
        \/ \E t \in Threads, f \in Forms, ty \in Rets, b \in Behs : Call(t, f, ty, b)
        \/ \E t \in Threads, k \in Kinds, ty \in InvRets, b \in Behs : (k # "n" \/ b \in {"ok", "clr", "tnew1", "tnew2", "nest", "nestp"}) /\ Invoke(t, k, ty, b)
        \/ \E t \in Threads : Attach(t)
        \/ \E t \in Threads : Detach(t)
        \/ \E o \in Objs : Make(o)
        \/ \E o \in Objs : Drop(o)
Spec == Init /\ [][Next]_vars

(* ---- C09 ---- *)
Vals == {"-", "x", "m1", "m2", "n1", "n2", "o1", "o2"}
TypeOK == pend \in [Threads -> Vals] /\ nat \in [Objs -> BOOLEAN] /\ pend[1] # "x"
\* only calls on a thread change what is pending there, and only clearing (or detaching) empties it
PerThread == [][\A t \in Threads : pend'[t] # pend[t] => last'.args[1] = t]_vars
StaysUntilCleared == [][\A t \in Threads : (pend[t] \notin {"-", "x"} /\ pend'[t] = "-") =>
                 (last'.op = "clear" \/ (last'.op \in {"call", "invoke"} /\ last'.args[4] \in {"clr", "nest"}))]_vars
Edge == PrintT("E " \o ToJson([s |-> View, l |-> last', t |-> View']))
SimEdge == PrintT("S " \o ToJson([lv |-> TLCGet("level"), s |-> View, l |-> last', t |-> View']))
=============================================================================
