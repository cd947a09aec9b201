------------------------------- MODULE Natives -------------------------------
(* Property C15.  Native functions registered on a class B and on D derived from it, next to hooked
   methods (instance and static) and placeholders of the same names and signatures.  Native-side lookup
   (Class::getMethod) prefers hooked methods, then the function registered last on the class or the
   nearest base, then placeholders.  JNI lookup never sees registered natives.                        *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json
CONSTANTS Members, Fns, Hooking, Strict, MaxList, Rets
VARIABLES nat, inst, stat, last
vars == <<nat, inst, stat, last>>
View == <<nat, inst, stat>>
Classes == {"B", "D"}
Chain(c) == IF c = "D" THEN <<"D", "B">> ELSE <<"B">>
Entry == {"none", "ph", "hook"}
\* the nearest class of the chain with something satisfying P, or none
First(c, P(_)) == IF \E i \in DOMAIN Chain(c) : P(Chain(c)[i]) THEN Chain(c)[CHOOSE i \in DOMAIN Chain(c) : P(Chain(c)[i]) /\ \A j \in 1..(i - 1) : ~P(Chain(c)[j])] ELSE "none"
InstAt(c, m) == First(c, LAMBDA x : inst[x][m] # "none")
StatAt(c, m) == First(c, LAMBDA x : stat[x][m] # "none")
NatAt(c, m) == First(c, LAMBDA x : nat[x][m] # 0)
Hooked(f, c, m) == IF c = "none" THEN FALSE ELSE f[c][m] = "hook"
\* what an instance call of this member on an object of class c runs
Dispatch(c, m) == LET h == First(c, LAMBDA x : inst[x][m] = "hook") IN IF h = "none" THEN "default" ELSE "i" \o h
Direct(c, m) == IF stat[c][m] = "hook" THEN "s" \o c ELSE "default"
Lookup(c, m, how) ==
  LET i == InstAt(c, m) s == StatAt(c, m) n == NatAt(c, m)
  IN IF ~Hooked(inst, i, m) /\ ~Hooked(stat, s, m) /\ n # "none" THEN "n" \o ToString(nat[n][m])
     ELSE IF i = "none" /\ s = "none" THEN "nothing"
     ELSE IF how = "obj" THEN (IF i = "none" THEN "No such Method!" ELSE Dispatch(c, m))
     ELSE (IF s = "none" THEN "No such Method!" ELSE Direct(s, m))

Do(op, args, n, i, s, o) == /\ nat' = n /\ inst' = i /\ stat' = s /\ last' = [op |-> op, args |-> args, obs |-> o]
RECURSIVE Apply(_, _)
Apply(f, q) == IF q = <<>> THEN f ELSE Apply([f EXCEPT ![Head(q)[1]] = Head(q)[2]], Tail(q))
Flat(q) == [i \in 1..(2 * Len(q)) |-> IF i % 2 = 1 THEN q[(i + 1) \div 2][1] ELSE ToString(q[i \div 2][2])]
Lists == UNION {[1..n -> Members \X Fns] : n \in 1..MaxList}
\* the table of a class of its registered functions (Class::natives) is by name alone: what was registered last under the name
Name(m) == IF m \in {"fI", "fJ"} THEN "f" ELSE "g"
Table(q) == [i \in DOMAIN q |-> LET j == CHOOSE j \in DOMAIN q : Name(q[j][1]) = Name(q[i][1]) /\ \A k \in (j + 1)..Len(q) : Name(q[k][1]) # Name(q[i][1]) IN q[j][1] \o ToString(q[j][2])]
Register(c, q) == Do("register", <<c>> \o Flat(q), [nat EXCEPT ![c] = Apply(@, q)], inst, stat, Table(q))
Unregister(c) == Do("unregister", <<c>>, [nat EXCEPT ![c] = [m \in Members |-> 0]], inst, stat, <<>>)
HookI(c, m) == Hooking /\ Do("hooki", <<c, m>>, nat, [inst EXCEPT ![c][m] = "hook"], stat, 0)
HookS(c, m) == Hooking /\ Do("hooks", <<c, m>>, nat, inst, [stat EXCEPT ![c][m] = "hook"], 0)
Invoke(c, m, how) == Do("invoke", <<c, m, how>>, nat, inst, stat, Lookup(c, m, how))
\* JNI code looks the member up on the class and calls what it gets
Jni(c, m) == IF InstAt(c, m) = "none" THEN IF Strict THEN Do("jni", <<c, m>>, nat, inst, stat, "null") ELSE Do("jni", <<c, m>>, nat, [inst EXCEPT ![c][m] = "ph"], stat, "default")
             ELSE Do("jni", <<c, m>>, nat, inst, stat, Dispatch(c, m))
JniS(c, m) == IF StatAt(c, m) = "none" THEN IF Strict THEN Do("jnis", <<c, m>>, nat, inst, stat, "null") ELSE Do("jnis", <<c, m>>, nat, inst, [stat EXCEPT ![c][m] = "ph"], "default")
              ELSE Do("jnis", <<c, m>>, nat, inst, stat, Direct(StatAt(c, m), m))
\* a registered function of every result type takes arguments of many types and returns the boundary value v
Form(r, v, how) == Do("form", <<r, v, how>>, nat, inst, stat, v)

Zero == [c \in Classes |-> [m \in Members |-> 0]]
Nothing == [c \in Classes |-> [m \in Members |-> "none"]]
Init == nat = Zero /\ inst = Nothing /\ stat = Nothing /\ last = [op |-> "init", args |-> <<>>, obs |-> 0]
Next == \/ \E c \in Classes, q \in Lists : Register(c, q)
        \/ \E c \in Classes : Unregister(c)
        \/ \E c \in Classes, m \in Members : HookI(c, m)
        \/ \E c \in Classes, m \in Members : HookS(c, m)
        \/ \E c \in Classes, m \in Members, how \in {"obj", "cls"} : Invoke(c, m, how)
        \/ \E c \in Classes, m \in Members : Jni(c, m)
        \/ \E c \in Classes, m \in Members : JniS(c, m)
        \/ \E r \in Rets, v \in 1..2, how \in {"obj", "cls"} : Form(r, v, how)
Spec == Init /\ [][Next]_vars
(* ---- C15 ---- *)
TypeOK == \A c \in Classes, m \in Members : nat[c][m] \in Fns \cup {0} /\ inst[c][m] \in Entry /\ stat[c][m] \in Entry
\* without a hooked method, what was registered last is what is found, on the class or inherited
LastWins == [][(last'.op = "register") =>
   LET c == last'.args[1] k == Len(last'.args) \div 2 m == last'.args[2 * k]
   IN (nat'[c][m] # 0 /\ ToString(nat'[c][m]) = last'.args[2 * k + 1])]_vars
OnlyThatClass == [][/\ (last'.op \in {"register", "unregister"} => inst' = inst /\ stat' = stat /\ \A c \in Classes : c # last'.args[1] => nat'[c] = nat[c])
                    /\ (last'.op \notin {"register", "unregister"} => nat' = nat)]_vars
Edge == PrintT("E " \o ToJson([s |-> View, l |-> last', t |-> View']))
SimEdge == PrintT("S " \o ToJson([lv |-> TLCGet("level"), s |-> View, l |-> last', t |-> View']))
=============================================================================
