------------------------------ MODULE ObjArrays ------------------------------
(* Property C13.  Object arrays of some element class in a few slots, made by JNI or by native code, and
   a few objects of classes of a small hierarchy.  An object lives while the program holds it or an
   array contains it.  Arrays of a class known natively accept its instances only, whichever way the
   element is stored and also when the array is used as array of a base class; arrays of other classes
   accept everything.  Every step names content and length of all arrays and which objects live.     *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json
CONSTANTS Slots, Objs, ClassOf, MaxLen, Elems, Kinds, Full
VARIABLES arr, held, last
vars == <<arr, held, last>>
View == <<arr, held>>
\* Leaf < Mid < Base < Object, Side < Base; other classes derive from Object only
Ups(c) == CASE c = "Leaf" -> {"Leaf", "Mid", "Base", "Object"} [] c = "Mid" -> {"Mid", "Base", "Object"} [] c = "Side" -> {"Side", "Base", "Object"}
          [] c = "Base" -> {"Base", "Object"} [] c = "Other" -> {"Other", "Object"} [] OTHER -> {"Object"}
\* "Plain" is a class without native type
Accepts(e, o) == (e \in {"Plain", "Object"}) \/ (e \in Ups(ClassOf[o]))
Native(e) == e # "Plain"
NoArr == [e |-> "none", d |-> <<>>]
In(a, o) == \E s \in Slots : \E i \in DOMAIN a[s].d : a[s].d[i] = o
Alive(a, h) == {o \in Objs : o \in h \/ In(a, o)}
Obs(a, h) == [arr |-> [s \in Slots |-> a[s]], alive |-> [o \in Objs |-> o \in Alive(a, h)]]
Do(op, args, a, h, r) == /\ arr' = a /\ held' = h /\ last' = [op |-> op, args |-> args, obs |-> [r |-> r, w |-> Obs(a, h)]]
\* an argument: null, or an object the program holds
Args == {"null"} \cup held
Ok(e, o) == IF o = "null" THEN TRUE ELSE Accepts(e, o)
NameOf(e) == IF e = "Object" THEN "[Ljava/lang/Object;" ELSE "[Lo/" \o e \o ";"
Live(s) == arr[s].e # "none"

Make(o) == o \notin Alive(arr, held) /\ Do("make", <<o, ClassOf[o]>>, arr, held \cup {o}, "ok")
Release(o) == o \in held /\ Do("release", <<o>>, arr, held \ {o}, "ok")
New(s, e, n, o, k) == /\ arr[s].e = "none" /\ o \in Args
                      /\ IF n = 0 \/ Ok(e, o) THEN Do("new", <<s, e, n, o, k>>, [arr EXCEPT ![s] = [e |-> e, d |-> [i \in 1..n |-> o]]], held, NameOf(e))
                         ELSE Do("new", <<s, e, n, o, k>>, arr, held, "rejected")
\* native code makes the array
NNew(s, e, n) == arr[s].e = "none" /\ Native(e) /\ Do("nnew", <<s, e, n>>, [arr EXCEPT ![s] = [e |-> e, d |-> [i \in 1..n |-> "null"]]], held, "ok")
Drop(s) == Live(s) /\ Do("drop", <<s>>, [arr EXCEPT ![s] = NoArr], held, "ok")
Store(op, args, s, i, o, ok) == IF ok THEN Do(op, args, [arr EXCEPT ![s].d[i + 1] = o], held, "stored") ELSE Do(op, args, arr, held, "rejected")
Put(s, i, o, k) == Live(s) /\ i < Len(arr[s].d) /\ o \in Args /\ Store("put", <<s, i, o, k>>, s, i, o, Ok(arr[s].e, o))
\* native code uses the array as array of class v, a base of its element class
Upcasts(e) == IF e = "Plain" THEN {"Object"} ELSE Ups(e)
NPut(s, v, i, o, how) == /\ Live(s) /\ i < Len(arr[s].d) /\ o \in Args /\ v \in Upcasts(arr[s].e) /\ Ok(v, o)
                         /\ (how = "ref" => o # "null")
                         /\ Store("nput", <<s, v, i, o, how>>, s, i, o, Ok(arr[s].e, o))
Get(s, i, k) == Live(s) /\ i < Len(arr[s].d) /\ Do("get", <<s, i, k>>, arr, held, arr[s].d[i + 1])
NGet(s, v, i, how) == Live(s) /\ i < Len(arr[s].d) /\ v \in Upcasts(arr[s].e) /\ Do("nget", <<s, v, i, how>>, arr, held, arr[s].d[i + 1])
\* the program takes hold of an element again
Take(s, i) == Live(s) /\ i < Len(arr[s].d) /\ arr[s].d[i + 1] # "null" /\ arr[s].d[i + 1] \notin held
              /\ Do("take", <<s, i>>, arr, held \cup {arr[s].d[i + 1]}, arr[s].d[i + 1])

Init == arr = [s \in Slots |-> NoArr] /\ held = {} /\ last = [op |-> "init", args |-> <<>>, obs |-> 0]
Next == \/ \E o \in Objs : Make(o)
        \/ \E o \in Objs : Release(o)
        \/ \E s \in Slots, e \in Elems, n \in 0..MaxLen, o \in Objs \cup {"null"}, k \in Kinds : New(s, e, n, o, k)
        \/ \E s \in Slots, e \in Elems, n \in 0..MaxLen : NNew(s, e, n)
        \/ \E s \in Slots : Drop(s)
        \/ \E s \in Slots, i \in 0..(MaxLen - 1), o \in Objs \cup {"null"}, k \in Kinds : Put(s, i, o, k)
        \/ \E s \in Slots, v \in Elems, i \in 0..(MaxLen - 1), o \in Objs \cup {"null"}, how \in {"shared", "raw", "ref"} : NPut(s, v, i, o, how)
        \/ \E s \in Slots, i \in 0..(MaxLen - 1), k \in Kinds : Get(s, i, k)
        \/ \E s \in Slots, v \in Elems, i \in 0..(MaxLen - 1), how \in {"shared", "raw", "const"} : NGet(s, v, i, how)
        \/ \E s \in Slots, i \in 0..(MaxLen - 1) : Take(s, i)
Spec == Init /\ [][Next]_vars
(* ---- C13 ---- *)
TypeOK == held \subseteq Objs /\ \A s \in Slots : Len(arr[s].d) <= MaxLen
Typed == \A s \in Slots : \A i \in DOMAIN arr[s].d : Ok(arr[s].e, arr[s].d[i])
OneSlot == [][(last'.op \in {"put", "nput"} => Cardinality({x \in Slots \X (1..MaxLen) : x[2] <= Len(arr[x[1]].d) /\ arr[x[1]].d[x[2]] # arr'[x[1]].d[x[2]]}) <= 1)
              /\ (last'.op \in {"get", "nget", "make", "release", "take"} => arr' = arr)
              /\ (last'.obs.r = "rejected" => arr' = arr)]_vars
\* an object in an array does not die
Kept == [][\A o \in Objs : (In(arr, o) /\ In(arr', o)) => last'.obs.w.alive[o]]_vars
Edge == PrintT("E " \o ToJson([s |-> View, l |-> last', t |-> View']))
SimEdge == PrintT("S " \o ToJson([lv |-> TLCGet("level"), s |-> View, l |-> last', t |-> View']))
=============================================================================
