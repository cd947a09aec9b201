------------------------------ MODULE Contexts -------------------------------
(* Property C18.  Threads, VMs and scoped contexts.  A thread is in at most one VM at a time (`env`).
   `st` is the stack of the scopes the thread has open; a scope that attached the thread owns the
   attachment, a scope that is a local frame holds the references created while it is the innermost one.
   `base` are the references outside of every local frame.                                          *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json
CONSTANTS Threads, VMs, Objs, Depth
VARIABLES up, env, st, base, last
vars == <<up, env, st, base, last>>
View == <<up, env, st, base>>

Scope(kind, own, has) == [k |-> kind, own |-> own, has |-> has, objs |-> {}]
RECURSIVE Held(_)
Held(s) == IF s = <<>> THEN {} ELSE Head(s).objs \cup Held(Tail(s))
Live == UNION {base[t] \cup Held(st[t]) : t \in Threads}
Do(op, args, u, e, s, b, r) ==
  /\ up' = u /\ env' = e /\ st' = s /\ base' = b
  /\ last' = [op |-> op, args |-> args, obs |-> [r |-> r, env |-> e, live |-> [o \in Objs |-> IF o \in UNION {b[t] \cup Held(s[t]) : t \in Threads} THEN 1 ELSE 0]]]
Nothing(op, args, r) == Do(op, args, up, env, st, base, r)
\* the scopes of t that use its environment
Uses(t) == \E i \in DOMAIN st[t] : st[t][i].has
Twice == "Attempt to initialize a FakeJni::Env twice in one thread!"
NoEnv == "No Env in this thread"

Create(t, v) == v \notin up /\ (IF env[t] = "" THEN Do("create", <<t, v>>, up \cup {v}, [env EXCEPT ![t] = v], st, base, "ok") ELSE Nothing("create", <<t, v>>, Twice))
Gone(v) == {t \in Threads : env[t] = v}
Destroy(t, v) == /\ v \in up /\ \A x \in Gone(v) : ~Uses(x)
                 /\ Do("destroy", <<t, v>>, up \ {v}, [x \in Threads |-> IF x \in Gone(v) THEN "" ELSE env[x]], st, [x \in Threads |-> IF x \in Gone(v) THEN {} ELSE base[x]], "ok")
\* how: attach, daemon, getenv
Attach(t, v, how) == /\ v \in up
                     /\ CASE env[t] = v -> Nothing("attach", <<t, v, how>>, "same")
                          [] env[t] = "" -> Do("attach", <<t, v, how>>, up, [env EXCEPT ![t] = v], st, base, "new")
                          [] OTHER -> Nothing("attach", <<t, v, how>>, Twice)
Detach(t, v) == /\ v \in up /\ (env[t] = v => ~Uses(t))
                /\ IF env[t] = v THEN Do("detach", <<t, v>>, up, [env EXCEPT ![t] = ""], st, [base EXCEPT ![t] = {}], "ok") ELSE Nothing("detach", <<t, v>>, "ok")
\* kinds: ctx and frame name the VM, ctx0 and frame0 take the environment the thread has
Push(t, s) == [st EXCEPT ![t] = Append(@, s)]
Open(t, v, k) ==
  /\ Len(st[t]) < Depth /\ v \in up
  /\ IF env[t] = "" THEN Do("open", <<t, v, k>>, up, [env EXCEPT ![t] = v], Push(t, Scope(k, v, TRUE)), base, "ok")
     ELSE Do("open", <<t, v, k>>, up, env, Push(t, Scope(k, "", TRUE)), base, "ok")
Open0(t, k) ==
  /\ Len(st[t]) < Depth
  /\ IF env[t] # "" THEN Do("open", <<t, "", k>>, up, env, Push(t, Scope(k, "", TRUE)), base, "ok")
     ELSE IF k = "frame" THEN Nothing("open", <<t, "", k>>, NoEnv)
     ELSE Do("open", <<t, "", k>>, up, env, Push(t, Scope(k, "", FALSE)), base, NoEnv)
Close(t) ==
  /\ st[t] # <<>>
  /\ LET s == st[t][Len(st[t])] rest == [st EXCEPT ![t] = SubSeq(@, 1, Len(@) - 1)] IN
     IF s.own # "" THEN Do("close", <<t>>, up, [env EXCEPT ![t] = ""], rest, [base EXCEPT ![t] = {}], "ok")
     ELSE Do("close", <<t>>, up, env, rest, base, "ok")
\* index of the innermost local frame, 0: none
Inner(t) == LET f == {i \in DOMAIN st[t] : st[t][i].k = "frame"} IN IF f = {} THEN 0 ELSE CHOOSE i \in f : \A j \in f : j <= i
Make(t, o) == /\ env[t] # "" /\ o \notin Live
              /\ IF Inner(t) = 0 THEN Do("make", <<t, o>>, up, env, st, [base EXCEPT ![t] = @ \cup {o}], "ok")
                 ELSE Do("make", <<t, o>>, up, env, [st EXCEPT ![t][Inner(t)].objs = @ \cup {o}], base, "ok")
\* the thread ends, and another one takes its name
Exit(t) == st[t] = <<>> /\ Do("exit", <<t>>, up, [env EXCEPT ![t] = ""], st, [base EXCEPT ![t] = {}], "ok")

Init == up = {} /\ env = [t \in Threads |-> ""] /\ st = [t \in Threads |-> <<>>] /\ base = [t \in Threads |-> {}] /\ last = [op |-> "init", args |-> <<>>, obs |-> 0]
Next == \/ \E t \in Threads, v \in VMs : Create(t, v)
        \/ \E t \in Threads, v \in VMs : Destroy(t, v)
        \/ \E t \in Threads, v \in VMs, h \in {"attach", "daemon", "getenv"} : Attach(t, v, h)
        \/ \E t \in Threads, v \in VMs : Detach(t, v)
        \/ \E t \in Threads, v \in VMs, k \in {"ctx", "frame"} : Open(t, v, k)
        \/ \E t \in Threads, k \in {"ctx", "frame"} : Open0(t, k)
        \/ \E t \in Threads : Close(t)
        \/ \E t \in Threads, o \in Objs : Make(t, o)
        \/ \E t \in Threads : Exit(t)
Spec == Init /\ [][Next]_vars

(* ---- C18 ---- *)
TypeOK == /\ up \subseteq VMs /\ env \in [Threads -> up \cup {""}] /\ \A t \in Threads : Len(st[t]) <= Depth
\* a thread with a scope that uses an environment has one; at most one scope owns the attachment, and it is the first to use one
Owner == \A t \in Threads : /\ Uses(t) => env[t] # ""
                            /\ \A i \in DOMAIN st[t] : st[t][i].own # "" => (st[t][i].own = env[t] /\ \A j \in 1..(i - 1) : ~st[t][j].has)
\* references belong to attached threads and to one place only
Attached == \A t \in Threads : env[t] = "" => base[t] = {} /\ Held(st[t]) = {}
\* opening and closing leaves the thread as it was
Restores == [][last'.op = "close" => LET t == last'.args[1] IN
                 /\ \A x \in Threads : x # t => env'[x] = env[x] /\ base'[x] = base[x] /\ st'[x] = st[x]
                 /\ (env'[t] # env[t]) = (st[t][Len(st[t])].own # "")]_vars
\* a thread is never moved from one VM to another in one step
NoMove == [][\A t \in Threads : env[t] # "" => env'[t] \in {env[t], ""}]_vars
OnlyOwn == [][last'.op \notin {"create", "destroy"} => \A t \in Threads : t # last'.args[1] => env'[t] = env[t] /\ base'[t] = base[t] /\ st'[t] = st[t]]_vars
Edge == PrintT("E " \o ToJson([s |-> View, l |-> last', t |-> View']))
SimEdge == PrintT("S " \o ToJson([lv |-> TLCGet("level"), s |-> View, l |-> last', t |-> View']))
=============================================================================
