---------------------------- MODULE NestedArrays ----------------------------
(* Property C13, arrays of arrays.  A pool of objects: leaves of class Base and of Sub derived from it, int arrays,
   and arrays of objects whose element class is Base, Sub, Object, a class without native type, or an array class.
   An object lives while the program holds it or a living array contains it, however deep.  Every step names the
   classes and contents of all living arrays and which objects live.                                              *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json
CONSTANTS Objs, KindOf(_), MaxLen, Hows
Kinds == UNION {KindOf(o) : o \in Objs}
VARIABLES pool, held, last
vars == <<pool, held, last>>
View == <<pool, held>>
NoObj == [k |-> "none", d |-> <<>>]
Scalar == {"leaf", "sub", "ints"}
\* the class of an object, and of the elements of an array
ClassOf(k) == CASE k = "leaf" -> "n/Base" [] k = "sub" -> "n/Sub" [] k = "ints" -> "[I" [] k = "A1" -> "[Ln/Base;" [] k = "S1" -> "[Ln/Sub;" [] k = "A2" -> "[[Ln/Base;"
                [] k = "A3" -> "[[[Ln/Base;" [] k = "I2" -> "[[I" [] k = "P1" -> "[Ln/Plain;" [] k = "P2" -> "[[Ln/Plain;" [] k = "O1" -> "[Ljava/lang/Object;" [] k = "O2" -> "[[Ljava/lang/Object;" [] OTHER -> "?"
Arrays == {"A1", "S1", "A2", "A3", "I2", "P1", "P2", "O1", "O2"}
\* arrays used natively refuse what is not an instance of their element type, arrays of a derived class are arrays of the base class
Accepts(k, x) == CASE k = "A1" -> x \in {"leaf", "sub"} [] k = "S1" -> x = "sub" [] k = "A2" -> x \in {"A1", "S1"} [] k = "A3" -> x = "A2" [] k = "I2" -> x = "ints" [] k = "O2" -> x \in Arrays [] OTHER -> TRUE
RECURSIVE Reach(_, _)
Reach(p, S) == LET T == S \cup UNION {{p[o].d[i] : i \in DOMAIN p[o].d} \ {"null"} : o \in S} IN IF T = S THEN S ELSE Reach(p, T)
\* what nothing holds any more is gone
Clean(p, h) == LET R == Reach(p, h) IN [o \in Objs |-> IF o \in R THEN p[o] ELSE NoObj]
Obs(p) == [o \in Objs |-> [c |-> IF p[o].k = "none" THEN "none" ELSE ClassOf(p[o].k), d |-> p[o].d]]
Do(op, args, p, h, r) == LET q == Clean(p, h) IN pool' = q /\ held' = h /\ last' = [op |-> op, args |-> args, obs |-> [r |-> r, w |-> Obs(q)]]
Lives(o) == pool[o].k # "none"
Ok(k, x) == IF x = "null" THEN TRUE ELSE Accepts(k, pool[x].k)
\* an array which contains itself is outside: nothing would ever destroy it
Acyclic(a, x) == IF x = "null" THEN TRUE ELSE a \notin Reach(pool, {x})

Make(o, k) == ~Lives(o) /\ k \in Scalar /\ Do("make", <<o, k>>, [pool EXCEPT ![o] = [k |-> k, d |-> <<>>]], held \cup {o}, "ok")
\* JNI code makes the array, its class looked up by name ("name") or taken from an object of the class ("obj")
New(o, k, n, x, how) ==
  /\ ~Lives(o) /\ k \in Arrays /\ (x \in held \cup {"null"})
  /\ (how = "obj" => (IF x = "null" THEN FALSE ELSE ClassOf(k) = IF pool[x].k \in {"leaf", "sub"} THEN "[L" \o ClassOf(pool[x].k) \o ";" ELSE "[" \o ClassOf(pool[x].k)))
  /\ IF n = 0 \/ Ok(k, x) THEN Do("new", <<o, k, n, x, how>>, [pool EXCEPT ![o] = [k |-> k, d |-> [i \in 1..n |-> x]]], held \cup {o}, ClassOf(k))
     ELSE Do("new", <<o, k, n, x, how>>, pool, held, "rejected")
Release(o) == o \in held /\ Do("release", <<o>>, pool, held \ {o}, "ok")
Put(a, i, x, how) == /\ a \in held /\ i < Len(pool[a].d) /\ x \in held \cup {"null"} /\ Acyclic(a, x)
                     /\ IF Ok(pool[a].k, x) THEN Do("put", <<a, i, x, how>>, [pool EXCEPT ![a].d[i + 1] = x], held, "stored") ELSE Do("put", <<a, i, x, how>>, pool, held, "rejected")
Get(a, i, how) == a \in held /\ i < Len(pool[a].d) /\ Do("get", <<a, i, how>>, pool, held, pool[a].d[i + 1])
Take(a, i) == /\ a \in held /\ i < Len(pool[a].d) /\ pool[a].d[i + 1] # "null"
              /\ Do("take", <<a, i>>, pool, held \cup {pool[a].d[i + 1]}, pool[a].d[i + 1])
\* a native method which takes the array of arrays reads, clears or fills a place of an inner one
Inner(a, i) == pool[a].d[i + 1]
Deep(a) == pool[a].k \in {"A2", "O2"}
NRead(a, i, n) == /\ a \in held /\ Deep(a) /\ i < Len(pool[a].d) /\ Inner(a, i) # "null" /\ n < Len(pool[Inner(a, i)].d)
                  /\ Do("nread", <<a, i, n>>, pool, held, pool[Inner(a, i)].d[n + 1])
NWrite(a, i, n, x) ==
  /\ a \in held /\ Deep(a) /\ i < Len(pool[a].d) /\ Inner(a, i) # "null" /\ n < Len(pool[Inner(a, i)].d) /\ x \in held \cup {"null"} /\ Acyclic(Inner(a, i), x)
  /\ (pool[a].k = "A2" => Ok("A1", x))
  /\ IF Ok(pool[Inner(a, i)].k, x) THEN Do("nwrite", <<a, i, n, x>>, [pool EXCEPT ![Inner(a, i)].d[n + 1] = x], held, "stored") ELSE Do("nwrite", <<a, i, n, x>>, pool, held, "rejected")
\* a native method which takes the array and returns one of its elements, again as an array
NPick(a, i) == a \in held /\ Deep(a) /\ i < Len(pool[a].d) /\ Do("npick", <<a, i>>, pool, held, Inner(a, i))
\* an object is an instance of its class and not of unrelated ones
Related(x, k) == x = k \/ (x \in Arrays /\ k \in {"O1", "O2"}) \/ (x = "S1" /\ k = "A1")
Is(o, k) == o \in held /\ (pool[o].k = k \/ ~Related(pool[o].k, k)) /\ Do("is", <<o, k>>, pool, held, IF pool[o].k = k \/ (pool[o].k = "sub" /\ k = "leaf") THEN "yes" ELSE "no")

Init == pool = [o \in Objs |-> NoObj] /\ held = {} /\ last = [op |-> "init", args |-> <<>>, obs |-> 0]
Places == 0..(MaxLen - 1)
Next == \/ \E o \in Objs, k \in Kinds : k \in KindOf(o) /\ Make(o, k)
        \/ \E o \in Objs, k \in Kinds, n \in 0..MaxLen, x \in Objs \cup {"null"}, how \in {"name", "obj"} : k \in KindOf(o) /\ New(o, k, n, x, how)
        \/ \E o \in Objs : Release(o)
        \/ \E a \in Objs, i \in Places, x \in Objs \cup {"null"}, how \in Hows : Put(a, i, x, how)
        \/ \E a \in Objs, i \in Places, how \in Hows : Get(a, i, how)
        \/ \E a \in Objs, i \in Places : Take(a, i)
        \/ \E a \in Objs, i \in Places, n \in Places : NRead(a, i, n)
        \/ \E a \in Objs, i \in Places, n \in Places, x \in Objs \cup {"null"} : NWrite(a, i, n, x)
        \/ \E a \in Objs, i \in Places : NPick(a, i)
        \/ \E o \in Objs, k \in Kinds : Is(o, k)
Spec == Init /\ [][Next]_vars
(* ---- C13 ---- *)
TypeOK == held \subseteq {o \in Objs : Lives(o)} /\ \A o \in Objs : pool[o].k \in Kinds \cup {"none"} /\ Len(pool[o].d) <= MaxLen
\* what a living array contains lives
Kept == \A o \in Objs : \A i \in DOMAIN pool[o].d : pool[o].d[i] = "null" \/ Lives(pool[o].d[i])
Typed == \A o \in Objs : \A i \in DOMAIN pool[o].d : Ok(pool[o].k, pool[o].d[i])
Held == \A o \in Objs : Lives(o) => o \in Reach(pool, held)
\* a store changes one place of one array
OneSlot == [][(last'.op \in {"put", "nwrite"} => Cardinality({o \in Objs : Lives(o) /\ pool'[o].k # "none" /\ pool[o] # pool'[o]}) <= 1)
              /\ (last'.op \in {"get", "nread", "npick", "is", "take"} => pool' = pool)
              /\ (last'.obs.r = "rejected" => pool' = pool)]_vars
Edge == PrintT("E " \o ToJson([s |-> View, l |-> last', t |-> View']))
SimEdge == PrintT("S " \o ToJson([lv |-> TLCGet("level"), s |-> View, l |-> last', t |-> View']))
=============================================================================
