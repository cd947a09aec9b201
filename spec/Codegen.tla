------------------------------- MODULE Codegen --------------------------------
(* Property C19.  What native code refers to in a lenient VM (classes, methods, constructors, fields, and
   the classes their types name) is the program the generated stubs declare.  `cls` and `mem` are that
   program.  Rebind generates the stubs, compiles them, runs their registration in a strict VM and
   compares what is found there with `cls` and `mem`.
   C++ can only declare some of it, so the guards keep references within: no two methods with one name and
   the same parameters, and nested classes in the types of a member only if the class around them is
   declared before that member (Forward lifts this).
   Sweep: a fixed program that puts every type into every position, in Chunks parts.                     *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json, Randomization
CONSTANTS Mode, Chunks, Max, Forward
VARIABLES cls, mem, seq, n, done, chunk, last
vars == <<cls, mem, seq, n, done, chunk, last>>
View == <<cls, mem, seq, n, done, chunk>>

\* a class: its namespace and the chain of the classes around it, outermost first
Ns(c) == CASE c \in {"X", "Y", "Y$Z"} -> <<>>
           [] c \in {"p/A", "p/A$N", "p/A$N$M", "p/B", "p/X"} -> <<"p">>
           [] c \in {"q/D", "q/D$E", "q/D$N"} -> <<"q">>
           [] c \in {"q/r/C", "q/r/C$In", "q/r/A"} -> <<"q", "r">>
           [] c \in {"java/lang/Integer", "java/lang/Object"} -> <<"java", "lang">>
           [] c \in {"java/util/Map", "java/util/Map$Entry"} -> <<"java", "util">>
           [] c = "java/nio/ByteBuffer" -> <<"java", "nio">>
           [] c = "internal/lang/Global" -> <<"internal", "lang">>
Chain(c) == CASE c = "Y$Z" -> <<"Y", c>> [] c = "p/A$N" -> <<"p/A", c>> [] c = "p/A$N$M" -> <<"p/A", "p/A$N", c>>
              [] c \in {"q/D$E", "q/D$N"} -> <<"q/D", c>> [] c = "q/r/C$In" -> <<"q/r/C", c>> [] c = "java/util/Map$Entry" -> <<"java/util/Map", c>>
              [] OTHER -> <<c>>
Classes == {"X", "Y", "Y$Z", "p/A", "p/A$N", "p/A$N$M", "p/B", "p/X", "q/D", "q/D$E", "q/D$N", "q/r/C", "q/r/C$In", "q/r/A", "java/lang/Integer", "java/util/Map", "java/util/Map$Entry"}
System == <<"java/lang/String", "java/lang/Object", "java/lang/Class", "java/lang/Throwable", "java/nio/ByteBuffer", "java/lang/reflect/Method", "java/lang/reflect/Field", "java/lang/ref/WeakReference", "internal/lang/Global">>
Prims == <<"Z", "B", "C", "S", "I", "J", "F", "D">>
\* a type: dimensions and what it is made of
Bases == Prims \o System \o <<"p/A", "p/A$N", "p/A$N$M", "q/D", "q/D$E", "X", "java/lang/Integer", "java/util/Map$Entry", "q/r/C", "q/r/C$In">>
PrimSet == {Prims[i] : i \in DOMAIN Prims}
SysSet == {System[i] : i \in DOMAIN System}
Dim == <<"", "[", "[[", "[[[">>
Type(d, b) == Dim[d + 1] \o (IF b \in PrimSet \cup {"V"} THEN b ELSE "L" \o b \o ";")
RECURSIVE Str(_)
Str(a) == IF a = <<>> THEN "" ELSE Type(Head(a)[1], Head(a)[2]) \o Str(Tail(a))
SetOf(s) == {s[i] : i \in DOMAIN s}
\* classes that come into existence with a type, in order
News(b) == IF b \in PrimSet \cup SysSet \cup {"V"} THEN <<>> ELSE Chain(b)
RECURSIVE AllNews(_)
AllNews(a) == IF a = <<>> THEN <<>> ELSE News(Head(a)[2]) \o AllNews(Tail(a))
RECURSIVE Extend(_, _)
Extend(s, more) == IF more = <<>> THEN s ELSE Extend(IF Head(more) \in SetOf(s) THEN s ELSE Append(s, Head(more)), Tail(more))

\* ---- the order of declarations
Index(s, c) == CHOOSE i \in DOMAIN s : s[i] = c
Min(S) == CHOOSE x \in S : \A y \in S : x <= y
Prefix(p, q) == Len(p) <= Len(q) /\ SubSeq(q, 1, Len(p)) = p
NsIndex(s, p) == Min({i \in DOMAIN s : Prefix(p, Ns(s[i]))})
Common(p, q) == LET S == {i \in 0..Len(p) : i <= Len(q) /\ SubSeq(p, 1, i) = SubSeq(q, 1, i)} IN CHOOSE i \in S : \A j \in S : j <= i
Before(s, x, y) == LET p == Ns(x) q == Ns(y) i == Common(p, q) IN
  IF Len(p) = i /\ Len(q) = i THEN Index(s, x) < Index(s, y) ELSE IF Len(p) = i THEN TRUE ELSE IF Len(q) = i THEN FALSE
  ELSE NsIndex(s, SubSeq(p, 1, i + 1)) < NsIndex(s, SubSeq(q, 1, i + 1))
\* b can be named in a member of c
Nameable(s, b, c) ==
  IF b \in PrimSet \cup SysSet \cup {"V"} \/ Len(Chain(b)) = 1 THEN TRUE
  ELSE LET around == Chain(b)[Len(Chain(b)) - 1] IN
       IF Chain(b)[1] # Chain(c)[1] THEN Before(s, Chain(b)[1], Chain(c)[1]) ELSE around \in SetOf(Chain(c))
AllNameable(s, a, c) == \A i \in DOMAIN a : Nameable(s, a[i][2], c)

Count(c, ks, m) == Cardinality({x \in m : x.c = c /\ x.k \in ks})
Seen(c, cl, m) == <<Cardinality(cl), Count(c, {"m", "s", "i", "n"}, m), Count(c, {"f", "g"}, m)>>
Do(op, args, c, more, m) ==
  /\ ~done /\ n < Max /\ n' = n + 1 /\ UNCHANGED <<done, chunk>>
  /\ seq' = Extend(seq, Chain(c) \o more) /\ cls' = cls \cup SetOf(Chain(c)) \cup SetOf(more) /\ mem' = mem \cup m
  /\ last' = [op |-> op, args |-> args, obs |-> Seen(c, cls', mem')]
Find(c) == Do("find", <<c>>, c, <<>>, {})
FindArray(c) == /\ ~done /\ n < Max /\ n' = n + 1 /\ UNCHANGED <<done, seq, cls, mem, chunk>>
                /\ last' = [op |-> "find", args |-> <<"[L" \o c \o ";">>, obs |-> Seen("", cls, mem)]
\* k: m instance method, s static method
Method(c, k, name, a, r) ==
  LET sig == "(" \o Str(a) \o ")" \o Type(r[1], r[2]) x == [c |-> c, k |-> k, n |-> name, p |-> Str(a), s |-> sig] IN
  /\ x \in mem \/ \A y \in mem : ~(y.c = c /\ y.n = name /\ y.p = x.p)
  /\ Forward \/ AllNameable(Extend(seq, Chain(c) \o AllNews(Append(a, r))), Append(a, r), c)
  /\ Do("method", <<c, k, name, sig>>, c, AllNews(Append(a, r)), {x})
Ctor(c, a) ==
  LET sig == "(" \o Str(a) \o ")L" \o c \o ";" IN
  /\ Forward \/ AllNameable(Extend(seq, Chain(c) \o AllNews(a)), a, c)
  /\ Do("method", <<c, "i", "<init>", "(" \o Str(a) \o ")V">>, c, AllNews(a), {[c |-> c, k |-> "i", n |-> "<init>", p |-> Str(a), s |-> sig]})
\* k: f instance field, g static field
Field(c, k, name, t) ==
  LET x == [c |-> c, k |-> k, n |-> name, p |-> "", s |-> Type(t[1], t[2])] IN
  /\ x \in mem \/ \A y \in mem : ~(y.c = c /\ y.n = name)
  /\ Forward \/ AllNameable(Extend(seq, Chain(c) \o News(t[2])), <<t>>, c)
  /\ Do("field", <<c, k, name, x.s>>, c, News(t[2]), {x})
\* registered natives are not stubs
Native(c, name) == Do("native", <<c, name>>, c, <<>>, {[c |-> c, k |-> "n", n |-> name, p |-> "", s |-> "()V"]})
Entry(x) == x.k \o ":" \o x.c \o ":" \o x.n \o ":" \o x.s
Rebind == /\ ~done /\ done' = TRUE /\ UNCHANGED <<cls, mem, seq, n, chunk>>
          /\ last' = [op |-> "rebind", args |-> <<cls, {Entry(x) : x \in {y \in mem : y.k # "n"}}>>, obs |-> [error |-> "", missing |-> <<>>, extra |-> <<>>, wrong |-> <<>>]]

Init == cls = {} /\ mem = {} /\ seq = <<"java/lang/Object", "java/nio/ByteBuffer", "internal/lang/Global">> /\ n = 0 /\ done = FALSE /\ chunk = (IF Mode = "sweep" THEN Chunks ELSE 0) /\ last = [op |-> "init", args |-> <<>>, obs |-> 0]

\* ---- sweep
Parts == <<"m", "s", "i", "f", "g">>
Types == [i \in 1..(3 * Len(Bases)) |-> <<(i - 1) % 3, Bases[(i + 2) \div 3]>>]
Mine == {i \in DOMAIN Types : i % Chunks = chunk}
RECURSIVE Nth(_, _)
Nth(S, k) == IF k = 1 THEN Min(S) ELSE Nth(S \ {Min(S)}, k - 1)
SweepLen == 4 + 5 * Cardinality(Mine)
Part(i) == chunk = Chunks /\ chunk' = i /\ UNCHANGED <<cls, mem, seq, n, done>> /\ last' = [op |-> "part", args |-> <<i>>, obs |-> 0]
Sweep ==
  IF n < 4 THEN Find(<<"p/A$N$M", "q/D$E", "java/util/Map$Entry", "q/r/C$In">>[n + 1])
  ELSE LET j == ((n - 4) \div 5) + 1 k == Parts[((n - 4) % 5) + 1] i == Nth(Mine, j) t == Types[i] c == IF i % 2 = 0 THEN "q/r/C" ELSE "q/r/C$In" nm == k \o ToString(i) IN
       CASE k = "m" -> Method(c, "m", nm, <<t, <<0, Prims[1 + (i % 8)]>> >>, t)
         [] k = "s" -> Method(c, "s", nm, << <<0, "J">>, t>>, t)
         [] k = "i" -> Ctor("q/r/C$In", <<t, <<0, "I">>, t>>)
         [] OTHER -> Field(c, k, nm, t)

\* ---- random
SomeTypes(k) == RandomSubset(k, {<<d, Bases[i]>> : d \in 0..3, i \in DOMAIN Bases})
SomeClasses(k) == RandomSubset(k, Classes)
Lists(q) == {<<>>} \cup {<<t>> : t \in SomeTypes(2)} \cup {<<t, u>> : t \in SomeTypes(1), u \in SomeTypes(1)} \cup {<<t, u, v>> : t \in SomeTypes(1), u \in SomeTypes(1), v \in SomeTypes(1)}
Returns(q) == SomeTypes(2) \cup {<<0, "V">>}
Random == \/ \E c \in SomeClasses(2) : Find(c)
          \/ \E c \in SomeClasses(1) : FindArray(c)
          \/ \E c \in SomeClasses(3), k \in {"m", "s"}, name \in RandomSubset(1, {"m", "get", "set", "getX"}), a \in Lists(n), r \in Returns(n) : Method(c, k, name, a, r)
          \/ \E c \in SomeClasses(3), a \in Lists(n) : Ctor(c, a)
          \/ \E c \in SomeClasses(3), k \in {"f", "g"}, name \in RandomSubset(2, {"x", "y", "x1", "INSTANCE"}), t \in SomeTypes(2) : Field(c, k, name, t)
          \/ \E c \in SomeClasses(1) : Native(c, "nat")

\* ---- every program made of a few references
Small == \/ \E c \in {"X", "p/A$N", "p/X"} : Find(c)
         \/ Method("p/A", "m", "m", << <<0, "I">> >>, <<0, "p/A$N">>)
         \/ Method("p/A", "s", "m", << <<0, "J">> >>, <<0, "V">>)
         \/ Ctor("p/A$N", << <<1, "X">> >>)
         \/ Field("X", "g", "x", <<2, "p/X">>)
         \/ Native("p/X", "nat")
\* ---- a nested class named before the class around it
Ahead == Method("p/B", "m", "m", << <<0, "p/A$N">> >>, <<0, "V">>)

Next == \/ CASE Mode = "sweep" -> IF chunk = Chunks THEN \E i \in 0..Chunks - 1 : Part(i) ELSE n < SweepLen /\ Sweep [] Mode = "random" -> Random [] Mode = "small" -> Small [] Mode = "ahead" -> Ahead
        \/ (IF Mode = "sweep" THEN chunk # Chunks /\ n = SweepLen ELSE IF Mode = "small" THEN n > 0 ELSE n = Max) /\ Rebind
Spec == Init /\ [][Next]_vars

(* ---- C19 ---- *)
\* the declared program is closed: the classes of members and of their types, and those around them
Closed == \A x \in mem : x.c \in cls
Nested == \A c \in cls : \A i \in DOMAIN Chain(c) : Chain(c)[i] \in cls
NoSystem == cls \cap SysSet = {}
Ordered == cls \subseteq SetOf(seq)
Grows == [][cls \subseteq cls' /\ mem \subseteq mem']_vars
Edge == PrintT("E " \o ToJson([s |-> View, l |-> last', t |-> View']))
SimEdge == PrintT("S " \o ToJson([lv |-> TLCGet("level"), s |-> View, l |-> last', t |-> View']))
=============================================================================
