--------------------------------- MODULE Vms ----------------------------------
(* Property C21.  Several virtual machines in one process.  A VM has a kind, hooks which are applied (in
   order) to the function table of every environment it creates, an invocation table, classes, denied
   names, global references; each (VM, thread) pair has at most one environment with a function table of
   its own (GetVersion, EnsureLocalCapacity and the FindClass flavour stand for the table), a pending
   exception and local references.  An operation on one VM reads and writes only that VM's state, and a
   function table operation only that one table.
   Kinds: lenient, strict (jnivm), bare (jnivm, lenient, skipInit), fake (FakeJni), baron, hooked (baron
   with a setup callback that adds hook h1).  A thread is in at most one fake/baron VM.                  *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json
CONSTANTS Threads, VMs, Kinds, Names, Objs, Hooks, MaxHooks, Parts
VARIABLES kind, ini, inv, hooks, tbl, ex, cls, deny, glob, loc, mem, last
state == <<kind, ini, inv, hooks, tbl, ex, cls, deny, glob, loc, mem>>
vars == <<state, last>>
View == state

None == <<0, 0, 0>>
Fakes == {"fake", "baron", "hooked"}
Barons == {"baron", "hooked"}
Twice == "Attempt to initialize a FakeJni::Env twice in one thread!"
ForbiddenEnv == "Updating `ninterface.reserved0` to a different value is forbidden"
ForbiddenVM == "Updating `iinterface.reserved0` to a different value is forbidden"
\* the flavour of FindClass: 1 lenient, 2 strict, 3 baron (lenient unless denied)
Flavour(k) == IF k \in {"strict", "fake"} THEN 2 ELSE IF k \in Barons THEN 3 ELSE 1
Base(k) == <<65542, 0, Flavour(k)>>
ApplyHook(h, b) == CASE h = "h1" -> <<1001, b[2], b[3]>> [] h = "h2" -> <<1002, b[2], b[3]>> [] h = "h3" -> <<b[1], 77, b[3]>>
RECURSIVE Table(_, _)
Table(hs, b) == IF hs = <<>> THEN b ELSE Table(Tail(hs), ApplyHook(Head(hs), b))
In(t) == {v \in VMs : kind[v] \in Fakes /\ tbl[v][t] # None}
Live == UNION {glob[v] \cup UNION {loc[v][t] : t \in Threads} : v \in VMs}

Seen(k, i, n, tb, e, c, m) == [v \in VMs |-> [k |-> k[v], d |-> n[v],
    c |-> [x \in Names |-> IF x \notin c[v] THEN "no" ELSE IF m[v][x] = 0 \/ \A t \in Threads : tb[v][t] = None THEN "yes" ELSE ToString(m[v][x])],
    t |-> [t \in Threads |-> IF tb[v][t] = None THEN "-" ELSE ToString(tb[v][t][1]) \o "," \o ToString(tb[v][t][2]) \o "," \o (IF e[v][t] THEN "ex" ELSE "")]]]
Set(op, args, r, k, i, n, h, tb, e, c, d, g, l, m) ==
  /\ kind' = k /\ ini' = i /\ inv' = n /\ hooks' = h /\ tbl' = tb /\ ex' = e /\ cls' = c /\ deny' = d /\ glob' = g /\ loc' = l /\ mem' = m
  /\ last' = [op |-> op, args |-> args, obs |-> [r |-> r, vm |-> Seen(k, i, n, tb, e, c, m),
       live |-> [o \in Objs |-> IF \E v \in VMs : o \in g[v] \/ \E t \in Threads : o \in l[v][t] THEN 1 ELSE 0], id |-> "ok"]]
Nothing(op, args, r) == Set(op, args, r, kind, ini, inv, hooks, tbl, ex, cls, deny, glob, loc, mem)
Has(v, t) == ini[v] /\ tbl[v][t] # None

Create(t, v, k) ==
  /\ kind[v] = ""
  /\ IF k \in Fakes /\ In(t) # {} THEN Nothing("create", <<t, v, k>>, Twice)
     ELSE LET hs == IF k = "hooked" THEN <<"h1">> ELSE <<>> IN
          Set("create", <<t, v, k>>, "ok", [kind EXCEPT ![v] = k], [ini EXCEPT ![v] = k # "bare"], inv, [hooks EXCEPT ![v] = hs],
              IF k = "bare" THEN tbl ELSE [tbl EXCEPT ![v][t] = Table(hs, Base(k))], ex, cls, deny, glob, loc, mem)
\* a bare VM is initialized by its owner
Init1(t, v) == /\ kind[v] = "bare" /\ ~ini[v]
               /\ Set("init", <<t, v>>, "ok", kind, [ini EXCEPT ![v] = TRUE], inv, hooks, [tbl EXCEPT ![v][t] = Table(hooks[v], Base("bare"))], ex, cls, deny, glob, loc, mem)
Destroy(t, v) ==
  /\ kind[v] # ""
  /\ Set("destroy", <<t, v>>, "ok", [kind EXCEPT ![v] = ""], [ini EXCEPT ![v] = FALSE], [inv EXCEPT ![v] = 0], [hooks EXCEPT ![v] = <<>>], [tbl EXCEPT ![v] = [x \in Threads |-> None]],
         [ex EXCEPT ![v] = [x \in Threads |-> FALSE]], [cls EXCEPT ![v] = {}], [deny EXCEPT ![v] = {}], [glob EXCEPT ![v] = {}], [loc EXCEPT ![v] = [x \in Threads |-> {}]], [mem EXCEPT ![v] = [x \in Names |-> 0]])
\* FakeJni hides AddHook; hooks reach the environments created afterwards
AddHook(t, v, h) == /\ "hooks" \in Parts
  /\ kind[v] \notin {"", "fake"} /\ Len(hooks[v]) < MaxHooks
                    /\ Set("addhook", <<t, v, h>>, "ok", kind, ini, inv, [hooks EXCEPT ![v] = Append(@, h)], tbl, ex, cls, deny, glob, loc, mem)
Attach(t, v) ==
  /\ kind[v] # "" /\ ini[v]
  /\ IF tbl[v][t] # None THEN Nothing("attach", <<t, v>>, "same")
     ELSE IF kind[v] \in Fakes /\ In(t) # {} THEN Nothing("attach", <<t, v>>, Twice)
     ELSE Set("attach", <<t, v>>, "new", kind, ini, inv, hooks, [tbl EXCEPT ![v][t] = Table(hooks[v], Base(kind[v]))], ex, cls, deny, glob, loc, mem)
Detach(t, v) ==
  /\ kind[v] # "" /\ ini[v]
  /\ Set("detach", <<t, v>>, "ok", kind, ini, inv, hooks, [tbl EXCEPT ![v][t] = None], [ex EXCEPT ![v][t] = FALSE], cls, deny, glob, [loc EXCEPT ![v][t] = {}], mem)
\* how: null and own change one function of the current table; foreign names another owner
Override(t, v, how) == /\ "tables" \in Parts
  /\ Has(v, t)
  /\ IF how = "foreign" THEN Nothing("override", <<t, v, how>>, ForbiddenEnv)
     ELSE Set("override", <<t, v, how>>, "ok", kind, ini, inv, hooks,
              [tbl EXCEPT ![v][t] = IF how = "null" THEN <<2001, @[2], @[3]>> ELSE <<@[1], 88, @[3]>>], ex, cls, deny, glob, loc, mem)
\* the table of another environment is taken over, with or without its owner
Take(t, v, s, u, how) == /\ "tables" \in Parts
  /\ Has(v, t) /\ Has(u, s) /\ <<v, t>> # <<u, s>> /\ tbl[u][s][3] # 3
  /\ IF how = "keep" THEN Nothing("take", <<t, v, s, u, how>>, ForbiddenEnv)
     ELSE Set("take", <<t, v, s, u, how>>, "ok", kind, ini, inv, hooks, [tbl EXCEPT ![v][t] = tbl[u][s]], ex, cls, deny, glob, loc, mem)
OverrideVM(t, v, how) == /\ "invoke" \in Parts
  /\ kind[v] # ""
  /\ IF how = "foreign" THEN Nothing("overridevm", <<t, v, how>>, ForbiddenVM)
     ELSE Set("overridevm", <<t, v, how>>, "ok", kind, ini, [inv EXCEPT ![v] = IF how = "null" THEN 55 ELSE 66], hooks, tbl, ex, cls, deny, glob, loc, mem)
Throw(t, v) == /\ "exceptions" \in Parts
  /\ Has(v, t) /\ Set("throw", <<t, v>>, "ok", kind, ini, inv, hooks, tbl, [ex EXCEPT ![v][t] = TRUE], cls, deny, glob, loc, mem)
Clear(t, v) == /\ "exceptions" \in Parts
  /\ Has(v, t) /\ Set("clear", <<t, v>>, "ok", kind, ini, inv, hooks, tbl, [ex EXCEPT ![v][t] = FALSE], cls, deny, glob, loc, mem)
Find(t, v, n) == /\ "classes" \in Parts
  /\ Has(v, t)
  /\ LET f == tbl[v][t][3] IN
     IF n \in cls[v] \/ f = 1 \/ (f = 3 /\ n \notin deny[v])
     THEN Set("find", <<t, v, n>>, "found", kind, ini, inv, hooks, tbl, ex, [cls EXCEPT ![v] = @ \cup {n}], deny, glob, loc, mem)
     ELSE Nothing("find", <<t, v, n>>, "null")
Deny(t, v, n) == /\ "classes" \in Parts
  /\ kind[v] \in Barons /\ n \notin deny[v] /\ Set("deny", <<t, v, n>>, "ok", kind, ini, inv, hooks, tbl, ex, cls, [deny EXCEPT ![v] = @ \cup {n}], glob, loc, mem)
\* a member with value x is hooked on the class of that name
Hook(t, v, n, x) == /\ "members" \in Parts
  /\ Has(v, t) /\ Set("hook", <<t, v, n, ToString(x)>>, "ok", kind, ini, inv, hooks, tbl, ex, [cls EXCEPT ![v] = @ \cup {n}], deny, glob, loc, [mem EXCEPT ![v][n] = x])
\* a new object of the VM, held by a local or by a global reference; its class is the VM's own
Make(t, v, o, how) == /\ "objects" \in Parts
  /\ Has(v, t) /\ o \notin Live
  /\ IF how = "local" THEN Set("make", <<t, v, o, how>>, "ok", kind, ini, inv, hooks, tbl, ex, cls, deny, glob, [loc EXCEPT ![v][t] = @ \cup {o}], mem)
     ELSE Set("make", <<t, v, o, how>>, "ok", kind, ini, inv, hooks, tbl, ex, cls, deny, [glob EXCEPT ![v] = @ \cup {o}], loc, mem)
Drop(t, v, o) == /\ "objects" \in Parts
  /\ Has(v, t) /\ o \in glob[v]
                 /\ Set("drop", <<t, v, o>>, "ok", kind, ini, inv, hooks, tbl, ex, cls, deny, [glob EXCEPT ![v] = @ \ {o}], loc, mem)
\* null instead of a VM or an environment
Nulls(t, w) == Nothing("null", <<t, w>>, IF w = "env" THEN "Failed to get reference to jnivm::ENV" ELSE "Failed to get reference to jnivm::VM")

Init == /\ kind = [v \in VMs |-> ""] /\ ini = [v \in VMs |-> FALSE] /\ inv = [v \in VMs |-> 0] /\ hooks = [v \in VMs |-> <<>>]
        /\ tbl = [v \in VMs |-> [t \in Threads |-> None]] /\ ex = [v \in VMs |-> [t \in Threads |-> FALSE]] /\ cls = [v \in VMs |-> {}] /\ deny = [v \in VMs |-> {}]
        /\ glob = [v \in VMs |-> {}] /\ loc = [v \in VMs |-> [t \in Threads |-> {}]] /\ mem = [v \in VMs |-> [n \in Names |-> 0]]
        /\ last = [op |-> "init", args |-> <<>>, obs |-> 0]
Life == \/ \E t \in Threads, v \in VMs, k \in Kinds : Create(t, v, k)
        \/ \E t \in Threads, v \in VMs : Init1(t, v)
        \/ \E t \in Threads, v \in VMs : Destroy(t, v)
        \/ \E t \in Threads, v \in VMs : Attach(t, v)
        \/ \E t \in Threads, v \in VMs : Detach(t, v)
        \/ \E t \in Threads, w \in {"env", "vm"} : Nulls(t, w)
Next == \/ Life
        \/ \E t \in Threads, v \in VMs, h \in Hooks : AddHook(t, v, h)
        \/ \E t \in Threads, v \in VMs, how \in {"null", "own", "foreign"} : Override(t, v, how)
        \/ \E t \in Threads, v \in VMs, s \in Threads, u \in VMs, how \in {"keep", "null"} : Take(t, v, s, u, how)
        \/ \E t \in Threads, v \in VMs, how \in {"null", "own", "foreign"} : OverrideVM(t, v, how)
        \/ \E t \in Threads, v \in VMs : Throw(t, v)
        \/ \E t \in Threads, v \in VMs : Clear(t, v)
        \/ \E t \in Threads, v \in VMs, n \in Names : Find(t, v, n)
        \/ \E t \in Threads, v \in VMs, n \in Names : Deny(t, v, n)
        \/ \E t \in Threads, v \in VMs, n \in Names, x \in 1..2 : Hook(t, v, n, x)
        \/ \E t \in Threads, v \in VMs, o \in Objs, how \in {"local", "global"} : Make(t, v, o, how)
        \/ \E t \in Threads, v \in VMs, o \in Objs : Drop(t, v, o)
Spec == Init /\ [][Next]_vars

(* ---- C21 ---- *)
Of(v) == <<kind[v], ini[v], inv[v], hooks[v], tbl[v], ex[v], cls[v], deny[v], glob[v], loc[v], mem[v]>>
OneFake == \A t \in Threads : Cardinality(In(t)) <= 1
OneOwner == \A v, u \in VMs : v # u => (glob[v] \cup UNION {loc[v][t] : t \in Threads}) \cap (glob[u] \cup UNION {loc[u][t] : t \in Threads}) = {}
DownIsEmpty == \A v \in VMs : kind[v] = "" => \A t \in Threads : tbl[v][t] = None /\ ~ex[v][t] /\ loc[v][t] = {} /\ glob[v] = {} /\ cls[v] = {}
NoEnvNoState == \A v \in VMs, t \in Threads : tbl[v][t] = None => ~ex[v][t] /\ loc[v][t] = {}
\* an operation reaches the VM it names and no other
Independent == [][\A v \in VMs : (Len(last'.args) < 2 \/ last'.args[2] # v) => <<kind'[v], ini'[v], inv'[v], hooks'[v], tbl'[v], ex'[v], cls'[v], deny'[v], glob'[v], loc'[v], mem'[v]>> = Of(v)]_vars
\* existing tables only change by overriding exactly that one
TablesStay == [][\A v \in VMs, t \in Threads : tbl'[v][t] # tbl[v][t] /\ tbl[v][t] # None /\ tbl'[v][t] # None => last'.op \in {"override", "take"} /\ last'.args[1] = t /\ last'.args[2] = v]_vars
\* failures change nothing
Failed == [][last'.obs.r \in {Twice, ForbiddenEnv, ForbiddenVM} => View' = View]_vars
Edge == PrintT("E " \o ToJson([s |-> View, l |-> last', t |-> View']))
SimEdge == PrintT("S " \o ToJson([lv |-> TLCGet("level"), s |-> View, l |-> last', t |-> View']))
=============================================================================
