------------------------------ MODULE Members ------------------------------
(* Properties C05, C07, C24.  The member table of a declared hierarchy and every way of calling.
       O <- A <- B <- C      O <- I <- J     D : A, I     F : B, D
   has[c][m] says what class c holds under the key m (kind, name and signature):
       "n" nothing, "u" an id that native code asked for and nobody implements, else the
       implementation hooked last.
   An id is identified by the class that holds it and the key.  The observation of a lookup is the
   identity of the id; that of a call is which implementation ran, how often, and whether it got
   the receiver (or class) of the call.                                                          *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json

CONSTANTS Classes, Inst, Stat, Ctor, Fld, SFld, Variants, Lenient
Members == Inst \cup Stat \cup Ctor \cup Fld \cup SFld

VARIABLES has, last
vars == <<has, last>>
View == has

Bases(c) == CASE c = "A" -> <<"O">> [] c = "B" -> <<"A">> [] c = "C" -> <<"B">> [] c = "I" -> <<"O">>
              [] c = "D" -> <<"A", "I">> [] c = "F" -> <<"B", "D">> [] c = "J" -> <<"I">> [] OTHER -> <<>>
RECURSIVE Up(_)
Up(c) == {c} \cup UNION {Up(Bases(c)[i]) : i \in DOMAIN Bases(c)}

\* depth first search in declaration order for a class whose entry is not in Skip
RECURSIVE Search(_, _, _), SearchAll(_, _, _)
Search(c, m, Skip) == IF c \in Classes /\ has[c][m] \notin Skip THEN c
                      ELSE IF m \in Ctor THEN "" ELSE SearchAll(Bases(c), m, Skip)
SearchAll(bs, m, Skip) == IF bs = <<>> THEN ""
                          ELSE LET r == Search(Head(bs), m, Skip) IN IF r # "" THEN r ELSE SearchAll(Tail(bs), m, Skip)
Find(c, m) == Search(c, m, {"n"})
Impl(c, m) == Search(c, m, {"n", "u"})

Is(c, m) == has[c][m] \notin {"n", "u"}
Ran(c, m) == [r |-> c \o has[c][m], n |-> 1, recv |-> 1]
Default == [r |-> "", n |-> 0, recv |-> 1]
Do(op, args, h, o) == has' = h /\ last' = [op |-> op, args |-> args, obs |-> o]

Init == has = [c \in Classes |-> [m \in Members |-> "n"]] /\ last = [op |-> "init", args |-> <<>>, obs |-> 0]

Hook(c, m, v) == Do("hook", <<c, m, v>>, [has EXCEPT ![c][m] = v], [r |-> 0])
\* k: 0 on the thread of the vm, 1 on another attached thread
Lookup(c, m, k) == IF Find(c, m) # "" THEN Do("lookup", <<c, m, Find(c, m), k>>, has, [r |-> 1])
                   ELSE IF Lenient THEN Do("lookup", <<c, m, c, k>>, [has EXCEPT ![c][m] = "u"], [r |-> 1])
                   ELSE Do("lookup", <<c, m, "", k>>, has, [r |-> 0])
Known(o, m) == has[o][m] # "n"
Objects == Classes \ {"O"}
\* virtual call on an object of class rc through the id that class o holds
Call(o, m, rc) == Known(o, m) /\ o \in Up(rc) /\
                  Do("call", <<o, m, rc>>, has, IF Impl(rc, m) = "" THEN Default ELSE Ran(Impl(rc, m), m))
\* non-virtual call naming class cl
NCall(o, m, cl, rc) == Known(o, m) /\ o \in Up(rc) /\ cl \in Up(rc) /\ (Impl(cl, m) # "" \/ ~Is(o, m)) = TRUE /\
                       Do("ncall", <<o, m, cl, rc>>, has, IF Impl(cl, m) = "" THEN Default ELSE Ran(Impl(cl, m), m))
\* static call of the id that class o holds, naming class cl
SCall(o, m, cl) == Known(o, m) /\ o \in Up(cl) /\ Do("scall", <<o, m, cl>>, has, IF Is(o, m) THEN Ran(o, m) ELSE Default)
New(c, m) == Known(c, m) /\ Do("new", <<c, m>>, has, IF Is(c, m) THEN Ran(c, m) ELSE Default)
FGet(o, m, rc) == Known(o, m) /\ o \in Up(rc) /\ Do("fget", <<o, m, rc>>, has, IF Is(o, m) THEN Ran(o, m) ELSE Default)
SFGet(o, m, cl) == Known(o, m) /\ o \in Up(cl) /\ Do("sfget", <<o, m, cl>>, has, IF Is(o, m) THEN Ran(o, m) ELSE Default)

Next == \/ \E c \in Classes, m \in Members, v \in Variants : Hook(c, m, v)
        \/ \E c \in Classes, m \in Members, k \in 0..1 : Lookup(c, m, k)
        \/ \E o \in Classes, m \in Inst, rc \in Objects : Call(o, m, rc)
        \/ \E o \in Classes, m \in Inst, cl \in Classes, rc \in Objects : NCall(o, m, cl, rc)
        \/ \E o \in Classes, m \in Stat, cl \in Classes : SCall(o, m, cl)
        \/ \E c \in Objects, m \in Ctor : New(c, m)
        \/ \E o \in Classes, m \in Fld, rc \in Objects : FGet(o, m, rc)
        \/ \E o \in Classes, m \in SFld, cl \in Classes : SFGet(o, m, cl)
Spec == Init /\ [][Next]_vars

(* ---- what the table guarantees ---- *)
TypeOK == has \in [Classes -> [Members -> {"n", "u"} \cup Variants]]
\* an id never goes away and an implementation is only ever replaced by another one
Monotone == [][\A c \in Classes, m \in Members :
                 /\ has[c][m] # "n" => has'[c][m] # "n"
                 /\ Is(c, m) => has'[c][m] \notin {"n", "u"}]_vars
\* only hooking or a failed lookup changes anything, and exactly one entry of the class that was asked
OneEntry == [][has' # has => /\ last'.op \in {"hook", "lookup"}
                             /\ \A c \in Classes, m \in Members : <<c, m>> # <<last'.args[1], last'.args[2]>> => has'[c][m] = has[c][m]]_vars
\* a lookup that was answered is answered with the same id by every later lookup, unless a class
\* that is searched earlier gets the member (by a hook, or in lenient mode by a lookup in that class)
Stable == [][\A c \in Classes, m \in Members : (Find(c, m) # "" /\ Find(c, m)' # Find(c, m)) =>
               /\ last'.op \in {"hook", "lookup"} /\ Find(c, m)' = last'.args[1] /\ has[last'.args[1]][m] = "n"]_vars
StrictNull == [][(~Lenient /\ last'.op = "lookup") => has' = has]_vars
\* virtual calls never run an implementation that a more specific first base overrides
MostSpecific == \A c \in Classes, m \in Inst : Impl(c, m) # "" =>
                  /\ Impl(c, m) \in Up(c)
                  /\ Is(c, m) => Impl(c, m) = c
                  /\ (~Is(c, m) /\ Bases(c) # <<>> /\ Impl(Bases(c)[1], m) # "") => Impl(c, m) = Impl(Bases(c)[1], m)
Edge == PrintT("E " \o ToJson([s |-> View, l |-> last', t |-> View']))
SimEdge == PrintT("S " \o ToJson([lv |-> TLCGet("level"), s |-> View, l |-> last', t |-> View']))
============================
