------------------------------ MODULE Monitors ------------------------------
(* Property C14.  Object monitors.  A thread that finds the monitor taken by another waits; when it
   becomes free the waiting thread enters.  To keep behaviours determined there is at most one waiting
   thread per object, and no circular waiting (such threads wait for ever, rightly).  Every step names
   the threads that are blocked afterwards.                                                          *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json
CONSTANTS Threads, Objs, MaxCount, Kinds
VARIABLES own, cnt, wait, last
vars == <<own, cnt, wait, last>>
View == <<own, cnt, wait>>
Free == "free"
Obs(w) == [t \in Threads |-> w[t] # ""]
Set(op, args, o, c, w) == /\ own' = o /\ cnt' = c /\ wait' = w /\ last' = [op |-> op, args |-> args, obs |-> Obs(w)]
\* does thread t wait, directly or not, for thread u
RECURSIVE Reaches(_, _, _)
Reaches(t, u, n) == IF n = 0 \/ wait[t] = "" THEN FALSE ELSE LET p == own[wait[t]] IN IF p = u THEN TRUE ELSE IF p = Free THEN FALSE ELSE Reaches(p, u, n - 1)

Enter(t, o, k) ==
  /\ wait[t] = ""
  /\ IF own[o] \in {Free, t}
     THEN cnt[o] < MaxCount /\ Set("enter", <<t, o, k>>, [own EXCEPT ![o] = t], [cnt EXCEPT ![o] = @ + 1], wait)
     ELSE /\ \A u \in Threads : wait[u] # o
          /\ ~Reaches(own[o], t, Cardinality(Threads))
          /\ Set("enter", <<t, o, k>>, own, cnt, [wait EXCEPT ![t] = o])
Exit(t, o, k) ==
  /\ wait[t] = "" /\ own[o] = t
  /\ IF cnt[o] > 1 THEN Set("exit", <<t, o, k>>, own, [cnt EXCEPT ![o] = @ - 1], wait)
     ELSE LET ws == {u \in Threads : wait[u] = o}
          IN IF ws = {} THEN Set("exit", <<t, o, k>>, [own EXCEPT ![o] = Free], [cnt EXCEPT ![o] = 0], wait)
             ELSE LET u == CHOOSE u \in ws : TRUE IN Set("exit", <<t, o, k>>, [own EXCEPT ![o] = u], cnt, [wait EXCEPT ![u] = ""])
Init == own = [o \in Objs |-> Free] /\ cnt = [o \in Objs |-> 0] /\ wait = [t \in Threads |-> ""] /\ last = [op |-> "init", args |-> <<>>, obs |-> 0]
Next == \E t \in Threads, o \in Objs, k \in Kinds : Enter(t, o, k) \/ Exit(t, o, k)
Spec == Init /\ [][Next]_vars
(* ---- C14 ---- *)
TypeOK == \A o \in Objs : cnt[o] \in 0..MaxCount /\ (cnt[o] = 0) = (own[o] = Free)
\* nobody waits for a free monitor or for its own
NoLostWake == \A t \in Threads : wait[t] # "" => own[wait[t]] \notin {Free, t}
\* the owner changes only when the owner leaves as often as it entered, and other objects are untouched
Exclusive == [][\A o \in Objs : own'[o] # own[o] => (own[o] = Free \/ (last'.op = "exit" /\ last'.args[1] = own[o] /\ cnt[o] = 1)) /\ last'.args[2] = o]_vars
Edge == PrintT("E " \o ToJson([s |-> View, l |-> last', t |-> View']))
SimEdge == PrintT("S " \o ToJson([lv |-> TLCGet("level"), s |-> View, l |-> last', t |-> View']))
=============================================================================
