----------------------------- MODULE LocalRefs -----------------------------
(* Property C01.  One attached thread with a stack of local frames; objects are kept alive by
   local references (a multiset per frame), by native pointers and by the slot of a pinned array.
   An object dies exactly when its last strong holder goes.  One action per JNI call; every
   action records in `last` the call, its arguments and the observation the property requires:
   which objects are alive after it, and which object the returned reference denotes.           *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json

CONSTANTS NObj, MaxDepth, MaxCnt, NewKinds, GetKinds, Caps

Obj == 1..NObj
VARIABLES frames,  \* sequence of functions Obj -> number of local references; Head is the current frame
          nat,     \* native pointers
          slot,    \* element of the pinned array, 0 = null
          live,    \* objects whose destructor has not run
          last
vars == <<frames, nat, slot, live, last>>
View == <<frames, nat, slot, live>>

Empty == [o \in Obj |-> 0]
Cnt(fr, o) == LET S == {i \in DOMAIN fr : fr[i][o] > 0} IN Cardinality(S)
Local(o) == \E i \in DOMAIN frames : frames[i][o] > 0
Strong(fr, n, s, o) == (\E i \in DOMAIN fr : fr[i][o] > 0) \/ n[o] \/ s = o

Flags(lv) == [o \in Obj |-> IF lv[o] THEN 1 ELSE 0]
\* the call has returned: everything without a strong holder has been destroyed, nothing else has
Ret(op, args, fr, n, s, born, r) ==
    /\ frames' = fr /\ nat' = n /\ slot' = s
    /\ live' = [o \in Obj |-> (live[o] \/ o = born) /\ Strong(fr, n, s, o)]
    /\ last' = [op |-> op, args |-> args, obs |-> [live |-> Flags(live'), r |-> r]]

Top(fr, o, d) == [fr EXCEPT ![1][o] = @ + d]

Init == /\ frames = <<Empty>> /\ nat = [o \in Obj |-> FALSE] /\ slot = 0
        /\ live = [o \in Obj |-> FALSE]
        /\ last = [op |-> "init", args |-> <<>>, obs |-> 0]

\* kind 0: created by native code and held there; others: created by a call and returned to JNI code
New(o, k) == /\ ~live[o]
             /\ IF k = 0 THEN Ret("new", <<o, k>>, frames, [nat EXCEPT ![o] = TRUE], slot, o, 0)
                         ELSE Ret("new", <<o, k>>, Top(frames, o, 1), nat, slot, o, o)
\* a call (kind k) hands out one more local reference
Get(o, k) == /\ live[o] /\ frames[1][o] < MaxCnt
             /\ Ret("get", <<o, k>>, Top(frames, o, 1), nat, slot, 0, o)
NewLocal(o) == /\ Local(o) /\ frames[1][o] < MaxCnt
               /\ Ret("newlocal", <<o>>, Top(frames, o, 1), nat, slot, 0, o)
\* removes one reference, from the innermost frame that has one
DelLocal(o) == /\ Local(o)
               /\ LET i == CHOOSE i \in DOMAIN frames : frames[i][o] > 0 /\ \A j \in 1..(i-1) : frames[j][o] = 0
                  IN Ret("dellocal", <<o>>, [frames EXCEPT ![i][o] = @ - 1], nat, slot, 0, 0)
Push(c) == /\ Len(frames) < MaxDepth
           /\ Ret("push", <<c>>, <<Empty>> \o frames, nat, slot, 0, 0)
\* popping the outermost frame leaves an empty one
Popped == IF Len(frames) = 1 THEN <<Empty>> ELSE Tail(frames)
Pop == Ret("pop", <<0>>, Popped, nat, slot, 0, 0)
PopResult(o) == /\ Local(o) /\ Popped[1][o] < MaxCnt
                /\ Ret("pop", <<o>>, Top(Popped, o, 1), nat, slot, 0, o)
Hold(o) == /\ live[o] /\ ~nat[o] /\ Ret("hold", <<o>>, frames, [nat EXCEPT ![o] = TRUE], slot, 0, 0)
Drop(o) == /\ nat[o] /\ Ret("drop", <<o>>, frames, [nat EXCEPT ![o] = FALSE], slot, 0, 0)
Store(o) == /\ Local(o) /\ slot # o /\ Ret("store", <<o>>, frames, nat, o, 0, 0)
Clear == /\ slot # 0 /\ Ret("store", <<0>>, frames, nat, 0, 0, 0)

Next == \/ \E o \in Obj, k \in NewKinds : New(o, k)
        \/ \E o \in Obj, k \in GetKinds : Get(o, k)
        \/ \E o \in Obj : NewLocal(o)
        \/ \E o \in Obj : DelLocal(o)
        \/ \E c \in Caps : Push(c)
        \/ Pop
        \/ \E o \in Obj : PopResult(o)
        \/ \E o \in Obj : Hold(o)
        \/ \E o \in Obj : Drop(o)
        \/ \E o \in Obj : Store(o)
        \/ Clear
Spec == Init /\ [][Next]_vars

(* ---- C01 ---- *)
TypeOK == /\ frames \in Seq([Obj -> 0..MaxCnt]) /\ Len(frames) \in 1..MaxDepth
          /\ nat \in [Obj -> BOOLEAN] /\ live \in [Obj -> BOOLEAN] /\ slot \in 0..NObj
AliveIffHeld == \A o \in Obj : live[o] <=> Strong(frames, nat, slot, o)
\* a call that removes no holder destroys nothing
DiesOnlyWithHolder == [][\A o \in Obj : (live[o] /\ ~live'[o]) =>
        (Strong(frames, nat, slot, o) /\ last'.op \in {"dellocal", "pop", "drop", "store"})]_vars
\* a popped frame drops everything but the result, which arrives in the enclosing frame
PopExact == [][last'.op = "pop" => \A o \in Obj :
        frames'[1][o] = (IF Len(frames) = 1 THEN 0 ELSE frames[2][o]) + (IF last'.args[1] = o THEN 1 ELSE 0)]_vars

Edge == PrintT("E " \o ToJson([s |-> View, l |-> last', t |-> View']))
SimEdge == PrintT("S " \o ToJson([lv |-> TLCGet("level"), s |-> View, l |-> last', t |-> View']))
=============================================================================
