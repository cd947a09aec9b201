------------------------------ MODULE Threads ------------------------------
(* Property C03.  Several operating system threads and one VM.  The creating thread (1) is
   attached from the start.  `att` says which threads have an environment; local references and
   the pending exception belong to the environment, the global reference to the VM.              *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json

CONSTANTS NT, NObj, AttKinds

T == 1..NT
Obj == 1..NObj
VARIABLES att, loc, exc, g, live, last
vars == <<att, loc, exc, g, live, last>>
View == <<att, loc, exc, g, live>>

Held(l, gg, o) == gg = o \/ o \in UNION {l[t] : t \in T}
Ret(op, args, a, l, x, gg, born, r) ==
    /\ att' = a /\ loc' = l /\ exc' = x /\ g' = gg
    /\ live' = [o \in Obj |-> (live[o] \/ o = born) /\ Held(l, gg, o)]
    /\ last' = [op |-> op, args |-> args,
                obs |-> [live |-> [o \in Obj |-> IF live'[o] THEN 1 ELSE 0], r |-> r]]
Keep(op, args, r) == Ret(op, args, att, loc, exc, g, 0, r)

Init == /\ att = [t \in T |-> t = 1] /\ loc = [t \in T |-> {}] /\ exc = [t \in T |-> 0] /\ g = 0
        /\ live = [o \in Obj |-> FALSE]
        /\ last = [op |-> "init", args |-> <<>>, obs |-> 0]

\* kinds: 0 AttachCurrentThread, 1 AttachCurrentThreadAsDaemon, 2 GetEnv, 3 attach without asking for the environment.
\* result 1: the environment the thread already had; 2: a new one, shared with no attached thread
Attach(t, k) == Ret("attach", <<t, k>>, [att EXCEPT ![t] = TRUE], loc, exc, g, 0, IF att[t] THEN 1 ELSE 2)
\* the VM is asked directly for the environment of the calling (attached) thread
EnvOf(t) == att[t] /\ Keep("envof", <<t>>, 1)
Detach(t) == Ret("detach", <<t>>, [att EXCEPT ![t] = FALSE], [loc EXCEPT ![t] = {}], [exc EXCEPT ![t] = 0], g, 0, 0)
Make(t, o) == att[t] /\ ~live[o] /\ Ret("make", <<t, o>>, att, [loc EXCEPT ![t] = {o}], exc, g, o, o)
MakeMore(t, o) == att[t] /\ ~live[o] /\ loc[t] # {} /\ Ret("makemore", <<t, o>>, att, [loc EXCEPT ![t] = @ \cup {o}], exc, g, o, o)
NewL(t) == att[t] /\ g # 0 /\ g \notin loc[t] /\ Ret("newl", <<t>>, att, [loc EXCEPT ![t] = @ \cup {g}], exc, g, 0, g)
DelL(t, o) == att[t] /\ o \in loc[t] /\ Ret("dell", <<t, o>>, att, [loc EXCEPT ![t] = @ \ {o}], exc, g, 0, 0)
NewG(t, o) == att[t] /\ o \in loc[t] /\ g = 0 /\ Ret("newg", <<t, o>>, att, loc, exc, o, 0, o)
DelG(t) == att[t] /\ g # 0 /\ Ret("delg", <<t>>, att, loc, exc, 0, 0, 0)
Throw(t, n) == att[t] /\ Ret("throw", <<t, n>>, att, loc, [exc EXCEPT ![t] = n], g, 0, 0)
Check(t) == att[t] /\ Keep("check", <<t>>, exc[t])
ClearExc(t) == att[t] /\ exc[t] # 0 /\ Ret("clear", <<t>>, att, loc, [exc EXCEPT ![t] = 0], g, 0, 0)

Next == \/ \E t \in T, k \in AttKinds : Attach(t, k)
        \/ \E t \in T : EnvOf(t)
        \/ \E t \in T : Detach(t)
        \/ \E t \in T, o \in Obj : loc[t] = {} /\ Make(t, o)
        \/ \E t \in T, o \in Obj : MakeMore(t, o)
        \/ \E t \in T : NewL(t)
        \/ \E t \in T, o \in Obj : DelL(t, o)
        \/ \E t \in T, o \in Obj : NewG(t, o)
        \/ \E t \in T : DelG(t)
        \/ \E t \in T, n \in {1, 2} : Throw(t, n)
        \/ \E t \in T : Check(t)
        \/ \E t \in T : ClearExc(t)
Spec == Init /\ [][Next]_vars

(* ---- C03 ---- *)
TypeOK == /\ att \in [T -> BOOLEAN] /\ loc \in [T -> SUBSET Obj] /\ exc \in [T -> 0..2]
          /\ g \in 0..NObj /\ live \in [Obj -> BOOLEAN]
DetachedIsEmpty == \A t \in T : ~att[t] => loc[t] = {} /\ exc[t] = 0
AliveIffHeld == \A o \in Obj : live[o] <=> Held(loc, g, o)
\* an operation of one thread changes nothing of another thread
Isolated == [][\A t \in T : last'.args[1] # t => loc'[t] = loc[t] /\ exc'[t] = exc[t] /\ att'[t] = att[t]]_vars

Edge == PrintT("E " \o ToJson([s |-> View, l |-> last', t |-> View']))
SimEdge == PrintT("S " \o ToJson([lv |-> TLCGet("level"), s |-> View, l |-> last', t |-> View']))
=============================================================================
