----------------------------- MODULE GlobalRefs -----------------------------
(* Property C02.  Global and weak references next to local ones.  A handle is a pair
   <<kind, index>>: <<"l", o>> a local reference to object o, <<"g", i>> the global reference in
   slot i, <<"w", j>> the weak reference in slot j, <<"n", 0>> null.                             *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json

CONSTANTS NObj, NG, NW, MaxLoc, UseKinds

Obj == 1..NObj
Dead == NObj + 1     \* value of a weak slot whose object is gone
VARIABLES loc,   \* number of local references per object
          g, w,  \* slots: 0 = no reference
          arr,   \* object stored in the pinned array
          live, last
vars == <<loc, g, w, arr, live, last>>
View == <<loc, g, w, arr, live>>

Val(h) == IF h[1] = "l" THEN h[2] ELSE IF h[1] = "g" THEN g[h[2]]
          ELSE IF h[1] = "w" /\ w[h[2]] # Dead THEN w[h[2]] ELSE 0
Handles == {<<"l", o>> : o \in {x \in Obj : loc[x] > 0}} \cup {<<"g", i>> : i \in {x \in 1..NG : g[x] # 0}}
           \cup {<<"w", j>> : j \in {x \in 1..NW : w[x] # 0}} \cup {<<"n", 0>>}
Kind(h) == IF h[1] = "l" THEN 1 ELSE IF h[1] = "g" THEN 2 ELSE IF h[1] = "w" THEN 3 ELSE 0

Strong(l, gs, a, o) == l[o] > 0 \/ a = o \/ o \in {gs[i] : i \in 1..NG}

Ret(op, args, l, gs, ws, a, born, r) ==
    /\ loc' = l /\ g' = gs /\ arr' = a
    /\ live' = [o \in Obj |-> (live[o] \/ o = born) /\ Strong(l, gs, a, o)]
    /\ w' = [j \in 1..NW |-> IF ws[j] \in Obj /\ ~live'[ws[j]] THEN Dead ELSE ws[j]]
    /\ last' = [op |-> op, args |-> args,
                obs |-> [live |-> [o \in Obj |-> IF live'[o] THEN 1 ELSE 0], r |-> r]]

Init == /\ loc = [o \in Obj |-> 0] /\ g = [i \in 1..NG |-> 0] /\ w = [j \in 1..NW |-> 0] /\ arr = 0
        /\ live = [o \in Obj |-> FALSE]
        /\ last = [op |-> "init", args |-> <<>>, obs |-> 0]

Make(o) == ~live[o] /\ Ret("make", <<o>>, [loc EXCEPT ![o] = 1], g, w, arr, o, o)
NewL(h) == /\ (IF Val(h) = 0 THEN TRUE ELSE loc[Val(h)] < MaxLoc)
           /\ Ret("newl", h, IF Val(h) = 0 THEN loc ELSE [loc EXCEPT ![Val(h)] = @ + 1], g, w, arr, 0, Val(h))
NewG(i, h) == g[i] = 0 /\ Ret("newg", <<i>> \o h, loc, [g EXCEPT ![i] = Val(h)], w, arr, 0, Val(h))
NewW(j, h) == w[j] = 0 /\ Ret("neww", <<j>> \o h, loc, g, [w EXCEPT ![j] = Val(h)], arr, 0, Val(h))
DelL(o) == loc[o] > 0 /\ Ret("dell", <<o>>, [loc EXCEPT ![o] = @ - 1], g, w, arr, 0, 0)
DelG(i) == g[i] # 0 /\ Ret("delg", <<i>>, loc, [g EXCEPT ![i] = 0], w, arr, 0, 0)
DelW(j) == w[j] # 0 /\ Ret("delw", <<j>>, loc, g, [w EXCEPT ![j] = 0], arr, 0, 0)
Same(h1, h2) == Ret("same", h1 \o h2, loc, g, w, arr, 0, IF Val(h1) = Val(h2) THEN 1 ELSE 0)
Type(h) == Ret("type", h, loc, g, w, arr, 0, Kind(h))
Store(h) == arr # Val(h) /\ Ret("store", h, loc, g, w, Val(h), 0, Val(h))
\* k = 0: argument of a call (null stays null), 1: receiver of a virtual call, 2: receiver of a field
\* read, 3: receiver of a non-virtual call, 4: IsInstanceOf its class, 5: GetObjectClass is its class
Use(k, h) == /\ (k \in {0, 4, 5} \/ Val(h) # 0)
             /\ Ret("use", <<k>> \o h, loc, g, w, arr, 0, IF k \in {4, 5} THEN (IF Val(h) = 0 THEN 0 ELSE 1) ELSE Val(h))
\* the local frame is emptied: only global references and the array keep objects
Flush == (\E o \in Obj : loc[o] > 0) = TRUE /\ Ret("flush", <<>>, [o \in Obj |-> 0], g, w, arr, 0, 0)

Next == \/ \E o \in Obj : Make(o)
        \/ \E h \in Handles : NewL(h)
        \/ \E i \in 1..NG, h \in Handles : NewG(i, h)
        \/ \E j \in 1..NW, h \in Handles : NewW(j, h)
        \/ \E o \in Obj : DelL(o)
        \/ \E i \in 1..NG : DelG(i)
        \/ \E j \in 1..NW : DelW(j)
        \/ \E h1, h2 \in Handles : Same(h1, h2)
        \/ \E h \in Handles : Type(h)
        \/ \E h \in Handles : Store(h)
        \/ \E k \in UseKinds, h \in Handles : Use(k, h)
        \/ Flush
Spec == Init /\ [][Next]_vars

(* ---- C02 ---- *)
TypeOK == /\ loc \in [Obj -> 0..MaxLoc] /\ g \in [1..NG -> 0..NObj] /\ w \in [1..NW -> 0..Dead]
          /\ arr \in 0..NObj /\ live \in [Obj -> BOOLEAN]
GlobalPins == \A i \in 1..NG : g[i] # 0 => live[g[i]]
WeakNeverDangles == \A j \in 1..NW : w[j] \in Obj => live[w[j]]
WeakNeverPins == \A o \in Obj : live[o] => Strong(loc, g, arr, o)
\* deleting one reference affects no other handle, except that weak ones may see the object die
DeleteIsLocal == [][(last'.op \in {"dell", "delg", "delw"}) =>
        /\ \A i \in 1..NG : g'[i] # g[i] => last'.op = "delg" /\ last'.args[1] = i
        /\ \A j \in 1..NW : w'[j] # w[j] => (last'.op = "delw" /\ last'.args[1] = j) \/ (w[j] \in Obj /\ ~live'[w[j]])]_vars
\* a dead weak reference stays dead until it is deleted
DeadStays == [][\A j \in 1..NW : w[j] = Dead => w'[j] \in {Dead, 0}]_vars

Edge == PrintT("E " \o ToJson([s |-> View, l |-> last', t |-> View']))
SimEdge == PrintT("S " \o ToJson([lv |-> TLCGet("level"), s |-> View, l |-> last', t |-> View']))
=============================================================================
