------------------------------- MODULE System -------------------------------
(* Property C26.  Everything that can hold an object, in one machine: local references in the frames of
   several threads, global and weak references, fields of objects, a static field, elements of arrays, the
   pending exception of each thread, native pointers, and the receivers and arguments of calls in progress
   (an implementation can use the VM, call again and be left by an exception before it returns).
   Nodes have a field `next` (a node) and `kids` (an array); arrays hold nodes; nodes can be thrown.
   The VM counts references: an object lives while it is held by a root or by a living object.        *)
EXTENDS Naturals, Sequences, FiniteSets, Randomization, TLC, Json
CONSTANTS NN, NA, Len0, NT, NG, NW, MaxCnt, MaxDepth, MaxCalls, CallKinds, Groups, Sim

Nodes == 1..NN
Arrs == (NN+1)..(NN+NA)
Obj == 1..(NN+NA)
T == 1..NT
Dead == NN + NA + 1
Foreign == 90                  \* a pending exception that is not a node
VARIABLES st, last
vars == <<st, last>>
View == st
On(x) == x \in Groups
\* random behaviours choose one parameter at a time (st only keeps the choice from being a constant)
Pick(S) == IF ~Sim THEN S ELSE IF S = {} THEN {} ELSE RandomSubset(IF st.root >= 0 THEN 1 ELSE 1, S)

Empty == [o \in Obj |-> 0]
Sum(fr, o) == {i \in DOMAIN fr : fr[i][o] > 0}
Rooted(s, o) == \/ \E t \in T : Sum(s.frames[t], o) # {} \/ s.exc[t] = o
                                \/ (\E i \in DOMAIN s.calls[t] : s.calls[t][i].recv = o \/ s.calls[t][i].arg = o)
                \/ (\E i \in 1..NG : s.g[i] = o) \/ s.root = o \/ s.nat[o]
InHeap(s, o, lv) == \E p \in lv : IF p \in Nodes THEN s.next[p] = o \/ s.kids[p] = o ELSE (\E i \in 1..Len0 : s.elem[p][i] = o)
RECURSIVE Shrink(_, _)
Shrink(s, lv) == LET k == {o \in lv : Rooted(s, o) \/ InHeap(s, o, lv)} IN IF k = lv THEN lv ELSE Shrink(s, k)

\* the call has returned: everything nobody holds any more has been destroyed, nothing else has
Do(op, args, s, born, r) ==
    LET lv == Shrink(s, {o \in Obj : st.live[o] \/ o = born}) IN
    /\ st' = [s EXCEPT !.live = [o \in Obj |-> o \in lv],
                       !.next = [o \in Nodes |-> IF o \in lv THEN s.next[o] ELSE 0],
                       !.kids = [o \in Nodes |-> IF o \in lv THEN s.kids[o] ELSE 0],
                       !.elem = [o \in Arrs |-> IF o \in lv THEN s.elem[o] ELSE [i \in 1..Len0 |-> 0]],
                       !.w = [j \in 1..NW |-> IF s.w[j] \in Obj /\ s.w[j] \notin lv THEN Dead ELSE s.w[j]]]
    /\ last' = [op |-> op, args |-> args, obs |-> [live |-> [o \in Obj |-> IF o \in lv THEN 1 ELSE 0], r |-> r]]

Init == /\ st = [att |-> [t \in T |-> t = 1], frames |-> [t \in T |-> IF t = 1 THEN <<Empty>> ELSE <<>>],
                 calls |-> [t \in T |-> <<>>], exc |-> [t \in T |-> 0], g |-> [i \in 1..NG |-> 0], w |-> [j \in 1..NW |-> 0],
                 root |-> 0, next |-> [o \in Nodes |-> 0], kids |-> [o \in Nodes |-> 0],
                 elem |-> [a \in Arrs |-> [i \in 1..Len0 |-> 0]], nat |-> [o \in Obj |-> FALSE], live |-> [o \in Obj |-> FALSE]]
        /\ last = [op |-> "init", args |-> <<>>, obs |-> 0]
Live == {o \in Obj : st.live[o]}

\* handles thread t can use, and what they denote
Val(t, h) == IF h[1] = "l" THEN h[2] ELSE IF h[1] = "g" THEN st.g[h[2]]
             ELSE IF h[1] = "w" /\ st.w[h[2]] # Dead THEN st.w[h[2]] ELSE 0
Locals(t) == {<<"l", o>> : o \in {x \in Obj : Sum(st.frames[t], x) # {}}}
Refs(t) == Locals(t) \cup {<<"g", i>> : i \in {x \in 1..NG : st.g[x] # 0}} \cup {<<"w", j>> : j \in {x \in 1..NW : st.w[x] # 0}}
H(t, k) == {h \in Refs(t) : Val(t, h) \in (IF k = "n" THEN Nodes ELSE Arrs)}              \* denote a living object
H0(t, k) == {h \in Refs(t) : Val(t, h) \in (IF k = "n" THEN Nodes ELSE Arrs) \cup {0}} \cup {<<"n", 0>>}
Room(t, o) == IF o = 0 THEN TRUE ELSE st.frames[t][1][o] < MaxCnt
More(s, t, o) == IF o = 0 THEN s ELSE [s EXCEPT !.frames[t][1][o] = @ + 1]

\* ---- objects and references
Make(t, o, k) == ~st.live[o] /\ Do("make", <<t, o, k>>, More(st, t, o), o, o)
NewL(t, h) == Room(t, Val(t, h)) /\ Do("newl", <<t>> \o h, More(st, t, Val(t, h)), 0, Val(t, h))
DelL(t, o) == /\ <<"l", o>> \in Locals(t)
              /\ LET i == CHOOSE i \in DOMAIN st.frames[t] : st.frames[t][i][o] > 0 /\ \A j \in 1..(i-1) : st.frames[t][j][o] = 0
                 IN Do("dell", <<t, o>>, [st EXCEPT !.frames[t][i][o] = @ - 1], 0, 0)
Push(t) == Len(st.frames[t]) < MaxDepth /\ Do("push", <<t>>, [st EXCEPT !.frames[t] = <<Empty>> \o @], 0, 0)
Pop(t, h) == /\ Len(st.frames[t]) > 1
             /\ LET s == [st EXCEPT !.frames[t] = Tail(@)] o == Val(t, h) IN
                /\ (IF o = 0 THEN TRUE ELSE s.frames[t][1][o] < MaxCnt)
                /\ Do("pop", <<t>> \o h, More(s, t, o), 0, o)
NewG(t, i, h) == st.g[i] = 0 /\ Do("newg", <<t, i>> \o h, [st EXCEPT !.g[i] = Val(t, h)], 0, Val(t, h))
DelG(t, i) == st.g[i] # 0 /\ Do("delg", <<t, i>>, [st EXCEPT !.g[i] = 0], 0, 0)
NewW(t, j, h) == st.w[j] = 0 /\ Do("neww", <<t, j>> \o h, [st EXCEPT !.w[j] = Val(t, h)], 0, Val(t, h))
DelW(t, j) == st.w[j] # 0 /\ Do("delw", <<t, j>>, [st EXCEPT !.w[j] = 0], 0, 0)
Same(t, h1, h2) == Do("same", <<t>> \o h1 \o h2, st, 0, IF Val(t, h1) = Val(t, h2) THEN 1 ELSE 0)
Hold(o) == st.live[o] /\ ~st.nat[o] /\ Do("hold", <<1, o>>, [st EXCEPT !.nat[o] = TRUE], 0, 0)
Drop(o) == st.nat[o] /\ Do("drop", <<1, o>>, [st EXCEPT !.nat[o] = FALSE], 0, 0)
\* native code makes a node, holds it, and it has never been seen by the VM
NMake(o) == ~st.live[o] /\ Do("nmake", <<1, o>>, [st EXCEPT !.nat[o] = TRUE], o, o)

\* ---- the heap
SetNext(t, h, v) == Do("setnext", <<t>> \o h \o v, [st EXCEPT !.next[Val(t, h)] = Val(t, v)], 0, 0)
GetNext(t, h) == LET o == st.next[Val(t, h)] IN Room(t, o) /\ Do("getnext", <<t>> \o h, More(st, t, o), 0, o)
SetKids(t, h, v) == Do("setkids", <<t>> \o h \o v, [st EXCEPT !.kids[Val(t, h)] = Val(t, v)], 0, 0)
GetKids(t, h) == LET o == st.kids[Val(t, h)] IN Room(t, o) /\ Do("getkids", <<t>> \o h, More(st, t, o), 0, o)
SetElem(t, h, i, v) == Do("setelem", <<t>> \o h \o <<i>> \o v, [st EXCEPT !.elem[Val(t, h)][i] = Val(t, v)], 0, 0)
GetElem(t, h, i) == LET o == st.elem[Val(t, h)][i] IN Room(t, o) /\ Do("getelem", <<t>> \o h \o <<i>>, More(st, t, o), 0, o)
SetRoot(t, v) == Do("setroot", <<t>> \o v, [st EXCEPT !.root = Val(t, v)], 0, 0)
GetRoot(t) == Room(t, st.root) /\ Do("getroot", <<t>>, More(st, t, st.root), 0, st.root)
\* native code sets the member directly: cycles are broken this way
NSet(o, p) == /\ st.live[o] /\ (IF p = 0 THEN st.next[o] # 0 ELSE st.live[p])
              /\ Do("nset", <<1, o, p>>, [st EXCEPT !.next[o] = p], 0, 0)
Cut(a) == st.live[a] /\ (\E i \in 1..Len0 : st.elem[a][i] # 0) /\ Do("cut", <<1, a>>, [st EXCEPT !.elem[a] = [i \in 1..Len0 |-> 0]], 0, 0)

\* ---- pending exceptions
Throw(t, h) == Do("throw", <<t>> \o h, [st EXCEPT !.exc[t] = Val(t, h)], 0, 0)
Occurred(t) == LET o == IF st.exc[t] \in Nodes THEN st.exc[t] ELSE 0 IN
               (Sim => st.exc[t] # 0) /\ Room(t, o) /\ Do("occurred", <<t>>, More(st, t, o), 0, st.exc[t])
Clear(t) == (Sim => st.exc[t] # 0) /\ Do("clear", <<t>>, [st EXCEPT !.exc[t] = 0], 0, 0)

\* ---- calls.  "m" a member function, "f" a function (given the receiver as a plain pointer, which a
\* local reference keeps alive), "s" a static one; "nm" the member function called by native
\* code and "nn" a registered native called by native code (the references made for them stay in the frame)
Recv(k) == k # "s"
Native(k) == k \in {"nm", "nn"}
Enter(t, k, h, a) ==
    LET r == IF Recv(k) THEN Val(t, h) ELSE 0  v == Val(t, a)  s1 == [st EXCEPT !.calls[t] = <<[k |-> k, recv |-> IF k = "f" THEN 0 ELSE r, arg |-> v]>> \o @]
        s2 == IF Native(k) THEN More(More(s1, t, r), t, v) ELSE IF k = "f" THEN More(s1, t, r) ELSE s1 IN
    /\ Len(st.calls[t]) < MaxCalls
    /\ (IF k \in {"m", "s"} THEN TRUE ELSE Room(t, r) /\ (IF k = "f" THEN TRUE ELSE Room(t, v) /\ (r = v => st.frames[t][1][r] + 1 < MaxCnt)))
    /\ Do("enter", <<t, k>> \o h \o a, s2, 0, v)
\* native code that called sees the pending exception thrown (-1) instead of a result
Leave(t, h) == /\ st.calls[t] # <<>>
               /\ LET c == st.calls[t][1]  o == Val(t, h)  s == [st EXCEPT !.calls[t] = Tail(@)] IN
                  /\ (IF c.k # "nn" THEN Room(t, o) ELSE TRUE)
                  /\ Do("leave", <<t>> \o h, IF c.k # "nn" THEN More(s, t, o) ELSE s, 0,
                        IF Native(c.k) /\ st.exc[t] # 0 THEN 99 ELSE o)
LeaveThrow(t) == /\ st.calls[t] # <<>> /\ st.calls[t][1].k # "nn"
                 /\ Do("leavethrow", <<t>>, [st EXCEPT !.calls[t] = Tail(@), !.exc[t] = Foreign], 0,
                       IF Native(st.calls[t][1].k) THEN 99 ELSE 0)

\* ---- threads
Attach(t) == ~st.att[t] /\ Do("attach", <<t>>, [st EXCEPT !.att[t] = TRUE, !.frames[t] = <<Empty>>], 0, 0)
Detach(t) == t # 1 /\ st.calls[t] = <<>> /\ Do("detach", <<t>>, [st EXCEPT !.att[t] = FALSE, !.frames[t] = <<>>, !.exc[t] = 0], 0, 0)

A(t) == st.att[t]
By(t) == \/ A(t) /\ \E o \in Obj, k \in {0, 1} : (o \in Arrs => k = 0) /\ Make(t, o, k)
         \/ A(t) /\ \E h \in Pick(Refs(t)) : NewL(t, h)
         \/ A(t) /\ \E o \in Pick({x \in Obj : <<"l", x>> \in Locals(t)}) : DelL(t, o)
         \/ A(t) /\ Push(t)
         \/ A(t) /\ \E h \in Pick(Locals(t) \cup {<<"n", 0>>}) : Pop(t, h)
         \/ A(t) /\ \E i \in Pick(1..NG), h \in Pick(Refs(t)) : NewG(t, i, h)
         \/ A(t) /\ \E i \in Pick(1..NG) : DelG(t, i)
         \/ A(t) /\ \E j \in Pick(1..NW), h \in Pick(Refs(t)) : NewW(t, j, h)
         \/ A(t) /\ \E j \in Pick(1..NW) : DelW(t, j)
         \/ A(t) /\ On("same") /\ \E h1, h2 \in Pick(Refs(t)) : Same(t, h1, h2)
         \/ A(t) /\ On("heap") /\ \E h \in Pick(H(t, "n")), v \in Pick(H0(t, "n")) : SetNext(t, h, v)
         \/ A(t) /\ On("heap") /\ \E h \in Pick(H(t, "n")) : GetNext(t, h)
         \/ A(t) /\ On("kids") /\ \E rep \in 1..2, h \in Pick(H(t, "n")), v \in Pick(H0(t, "a")) : SetKids(t, h, v)
         \/ A(t) /\ On("kids") /\ \E h \in Pick(H(t, "n")) : GetKids(t, h)
         \/ A(t) /\ \E h \in Pick(H(t, "a")), i \in 1..Len0, v \in Pick(H0(t, "n")) : SetElem(t, h, i, v)
         \/ A(t) /\ \E h \in Pick(H(t, "a")), i \in 1..Len0 : GetElem(t, h, i)
         \/ A(t) /\ On("root") /\ \E v \in Pick(H0(t, "n")) : SetRoot(t, v)
         \/ A(t) /\ On("root") /\ GetRoot(t)
         \/ A(t) /\ On("exc") /\ \E h \in Pick(H(t, "n")) : Throw(t, h)
         \/ A(t) /\ On("exc") /\ Occurred(t)
         \/ A(t) /\ On("exc") /\ Clear(t)
         \/ A(t) /\ \E k \in CallKinds, h \in Pick(H(t, "n")), a \in Pick(H0(t, "n")) : Recv(k) /\ Enter(t, k, h, a)
         \/ A(t) /\ \E k \in CallKinds, a \in Pick(H0(t, "n")) : ~Recv(k) /\ Enter(t, k, <<"n", 0>>, a)
         \/ A(t) /\ \E h \in Pick(H0(t, "n")) : Leave(t, h)
         \/ A(t) /\ On("exc") /\ LeaveThrow(t)
         \/ A(t) /\ Detach(t)
Next == \/ \E t \in T : By(t)
        \/ \E t \in T : Attach(t)
        \/ On("nat") /\ \E o \in Pick(Live) : Hold(o)
        \/ On("nat") /\ \E o \in Pick({x \in Obj : st.nat[x]}) : Drop(o)
        \/ On("nat") /\ \E o \in Pick(Nodes) : NMake(o)
        \/ On("heap") /\ \E o \in Pick({x \in Nodes : st.live[x]}), p \in Pick({x \in Nodes : st.live[x]} \cup {0}) : NSet(o, p)
        \/ \E a \in Arrs : Cut(a)
Spec == Init /\ [][Next]_vars

(* ---- C26 ---- *)
TypeOK == /\ \A t \in T : st.att[t] <=> Len(st.frames[t]) > 0
          /\ \A j \in 1..NW : st.w[j] \in 0..Dead
          /\ \A o \in Obj : st.live[o] \in BOOLEAN
\* nothing dangles: whatever is referred to lives
NoDangling == /\ \A o \in Obj : Rooted(st, o) \/ InHeap(st, o, Live) => st.live[o]
              /\ \A j \in 1..NW : st.w[j] \in Obj => st.live[st.w[j]]
\* nothing is kept alive but by a holder; weak references do not hold
NoLeak == \A o \in Live : Rooted(st, o) \/ InHeap(st, o, Live)
\* without cycles, everything alive can be reached from a root
Reach == LET RECURSIVE R(_) R(k) == LET n == k \cup {o \in Live : InHeap(st, o, k)} IN IF n = k THEN k ELSE R(n)
         IN R({o \in Live : Rooted(st, o)})
Cyclic == \E o \in Nodes : \E k \in 1..(NN+NA) : o \in LET RECURSIVE S(_, _) S(x, n) == IF n = 0 THEN {x} ELSE
             UNION {S(y, n - 1) : y \in {z \in Obj : InHeap(st, z, {x})}} IN S(o, k)
AcyclicReachable == Live = Reach \/ Cyclic
\* an object dies only in a call that takes a holder away
Takes == {"dell", "pop", "delg", "drop", "setnext", "setkids", "setelem", "setroot", "nset", "cut", "throw", "clear", "leave", "leavethrow", "detach"}
DiesWithHolder == [][(\E o \in Obj : st.live[o] /\ ~st'.live[o]) => last'.op \in Takes]_vars
\* the calls of one thread leave the local references and the pending exception of the others alone
Others == [][\A t \in T : t # last'.args[1] => (st'.frames[t] = st.frames[t] /\ st'.exc[t] = st.exc[t] /\ st'.calls[t] = st.calls[t])]_vars
Edge == PrintT("E " \o ToJson([s |-> View, l |-> last', t |-> View']))
SimEdge == PrintT("S " \o ToJson([lv |-> TLCGet("level"), s |-> View, l |-> last', t |-> View']))
=============================================================================
